package zzh_icept

import (
	"context"
	"errors"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
)

type msg = internal.ClaimResponse

// chain is the oracle: level is the element that must be invoked next, ret what each invocation
// gave back last. Element n is the real handler.
type chain struct {
	n         int
	calls     [4]int  // how often element i calls next
	fail      [4]bool // element i returns an error of its own
	repl      [4]bool // element i replaces the result by one of its own
	level     int
	count     [5]int
	err       [5]error
	res       [5]proto.Message
	info      psrpc.RPCInfo
	ext       bool // the real handler's result is built by the library
	rerr      bool
	keepRes   bool
	realFails bool
	passive   bool
	busy      bool
}

// external takes over what the library returned for the real handler.
func (c *chain) external(i int, res proto.Message, err error) {
	if c.err[i] != nil {
		var pe psrpc.Error
		vm.Assert(errors.As(err, &pe) && pe.Error() == "real", "error of the real handler changed")
	} else {
		vm.Assert(err == nil, "error invented")
		if c.res[i] != nil {
			m, ok := res.(*msg)
			if ok && m == nil {
				ok = false
			}
			vm.Assert(!c.keepRes || ok && m.ServerId == "real", "result of the real handler changed")
		}
	}
	c.res[i], c.err[i] = res, err
}

func newChain(n int, i psrpc.RPCInfo) *chain {
	c := &chain{n: n, info: i, realFails: vm.Bool("realFails")}
	for k := 0; k < n; k++ {
		c.calls[k] = vm.Choose("calls", 3, k)
		c.fail[k] = vm.Bool("fail", k)
		c.repl[k] = vm.Bool("replace", k)
	}
	return c
}

// simpleChain lets one interceptor call next twice or not at all.
func simpleChain(name string, n int, i psrpc.RPCInfo) *chain {
	c := &chain{n: n, info: i, ext: true, realFails: vm.Bool(name + ".realFails")}
	odd := vm.Int(name+".odd", 0, 4)
	for k := 0; k < n; k++ {
		c.calls[k] = 1
		if k == odd {
			c.calls[k] = 2
			if vm.Bool(name + ".none") {
				c.calls[k] = 0
			}
		}
	}
	return c
}

func (c *chain) sameInfo(i psrpc.RPCInfo) {
	vm.Assert(i.Service == c.info.Service && i.Method == c.info.Method && i.Multi == c.info.Multi, "wrong call description")
	vm.Assert(len(i.Topic) == len(c.info.Topic), "wrong topic")
	for k := range i.Topic {
		vm.Assert(i.Topic[k] == c.info.Topic[k], "wrong topic")
	}
}

// enter runs element i: next must invoke element i+1 and give back its result.
func (c *chain) enter(i int, next func() (proto.Message, error)) (proto.Message, error) {
	if i == 0 {
		vm.Assert(!c.busy, "the outermost interceptor runs inside the chain")
		c.busy = true
		defer func() { c.busy = false }()
	} else {
		vm.Assert(c.level == i, "interceptors run out of order")
	}
	c.count[i]++
	var res proto.Message
	var err error
	for k := 0; k < c.calls[i]; k++ {
		before := c.count[i+1]
		c.level = i + 1
		res, err = next()
		if c.passive && i+1 == c.n {
			continue // the real handler is inside the library
		}
		vm.Assert(c.count[i+1] == before+1, "the next handler did not run exactly once")
		if c.ext && i+1 == c.n {
			c.external(i+1, res, err)
		}
		vm.Assert(err == c.err[i+1], "error of the next handler changed")
		vm.Assert(res == c.res[i+1], "result of the next handler changed")
	}
	c.level = -1
	if c.fail[i] {
		err = errs[i]
	}
	if c.repl[i] {
		res = &msg{ServerId: names[i]}
	}
	c.res[i], c.err[i] = res, err
	return res, err
}

var names = [5]string{"r0", "r1", "r2", "r3", "real"}
var errs = [5]error{errors.New("e0"), errors.New("e1"), errors.New("e2"), errors.New("e3"), errors.New("real")}

func (c *chain) real() (proto.Message, error) {
	vm.Assert(c.n == 0 || c.level == c.n, "the handler ran out of order")
	c.level = -1
	c.count[c.n]++
	c.err[c.n], c.res[c.n] = nil, nil
	if c.realFails {
		c.err[c.n] = errs[4]
	} else {
		c.res[c.n] = &msg{ServerId: "real"}
	}
	return c.res[c.n], c.err[c.n]
}

func size() int {
	if vm.Thorough() {
		return 4
	}
	return 3
}

func def(id string, multi bool) *info.ServiceDefinition {
	sd := &info.ServiceDefinition{Name: "S", ID: id}
	sd.RegisterMethod("M", false, multi, false, false)
	return sd
}

// Server interceptors of a registered handler.
//
//verif:harness P13 coop=1 rounds=3 native=1 cases=4 cases.thorough=5
func Server() {
	n := vm.Case()
	topic := []string{"t"}
	c := newChain(n, psrpc.RPCInfo{Service: "S", Method: "M", Topic: topic})
	var is []psrpc.ServerRPCInterceptor
	for k := 0; k < n; k++ {
		is = append(is, func(ctx context.Context, req proto.Message, i psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
			vm.Assert(ctx.Value("k") == nil || ctx.Value("k") == k-1, "context of another call")
			ctx = context.WithValue(ctx, "k", k)
			vm.Assert(req.(*msg).RequestId == "q", "request changed")
			c.sameInfo(i)
			return c.enter(k, func() (proto.Message, error) { return next(ctx, req) })
		})
	}
	b := bus.NewVBus()
	b.Cap = 8
	done := false
	b.OnPub = func(ch bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Response); ok {
			done = true
			if c.err[0] != nil {
				vm.Reach("error")
				vm.Assert(r.Error == c.err[0].Error(), "the caller does not get the error of the outermost interceptor")
			} else {
				vm.Reach("result")
				vm.Assert(r.Error == "" && r.Code == "", "error invented")
				got, err := bus.DeserializePayload[*msg](r.RawResponse)
				want, _ := c.res[0].(*msg)
				vm.Assert(err == nil && got.ServerId == want.GetServerId(), "the caller does not get the result of the outermost interceptor")
			}
		}
		return nil
	}
	s := server.NewRPCServer(def("srv", false), b, psrpc.WithServerRPCInterceptors(is...))
	err := server.RegisterHandler(s, "M", topic, func(ctx context.Context, req *msg) (*msg, error) {
		vm.Assert(n == 0 || ctx.Value("k") == n-1, "context not passed on")
		vm.Assert(req.RequestId == "q", "request changed")
		res, err := c.real()
		m, _ := res.(*msg)
		if m == nil {
			c.res[n] = (*msg)(nil)
		}
		return m, err
	}, nil)
	vm.Assert(err == nil, "registration failed")
	p, err := bus.SerializePayload(&msg{RequestId: "q"})
	vm.Assert(err == nil, "serialize")
	b.Inject((&info.RequestInfo{RPCInfo: c.info}).GetRPCChannel().Legacy, bus.Encode(&internal.Request{RequestId: "1", ClientId: "cli", Expiry: time.Now().Add(time.Hour).UnixNano(), RawRequest: p}))
	vm.Final(func() { vm.Assert(done, "no response") })
}

// reply answers on a channel of the client.
func reply(b *bus.VBus, m *internal.Response) {
	b.Inject(info.GetResponseChannel("S", "cli").Legacy, bus.Encode(m))
}

// Client interceptors of a unary call: those of the client first, then those of the request.
//
//verif:harness P13 coop=1 rounds=9 native=1 cases=9
func Unary() {
	nb, np := vm.Case()%3, vm.Case()/3
	n := nb + np
	topic := []string{"t"}
	c := simpleChain("c", n, psrpc.RPCInfo{Service: "S", Method: "M", Topic: topic})
	c.keepRes = true
	mk := func(k int) psrpc.ClientRPCInterceptor {
		return func(i psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
			c.sameInfo(i)
			return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
				vm.Assert(ctx.Value("k") == nil || ctx.Value("k") == k-1, "context not passed on")
				vm.Assert(req.(*msg).RequestId == "q", "request changed")
				vm.Assert(len(opts) == 1, "request options not passed on")
				ctx = context.WithValue(ctx, "k", k)
				return c.enter(k, func() (proto.Message, error) { return next(ctx, req, opts...) })
			}
		}
	}
	var base, per []psrpc.ClientRPCInterceptor
	for k := 0; k < nb; k++ {
		base = append(base, mk(k))
	}
	for k := 0; k < np; k++ {
		per = append(per, mk(nb+k))
	}
	b := bus.NewVBus()
	b.Cap = 20
	b.OnPub = func(ch bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Request); ok {
			if _, err := c.real(); err != nil {
				reply(b, &internal.Response{RequestId: r.RequestId, Error: "real", Code: "c"})
			} else {
				p, _ := bus.SerializePayload(&msg{ServerId: "real"})
				reply(b, &internal.Response{RequestId: r.RequestId, RawResponse: p})
			}
		}
		return nil
	}
	cl, err := client.NewRPCClient(def("cli", false), b, psrpc.WithClientRPCInterceptors(base...), psrpc.WithClientTimeout(time.Second))
	vm.Assert(err == nil, "client")
	res, err := client.RequestSingle[*msg](context.Background(), cl, "M", topic, &msg{RequestId: "q"}, psrpc.WithRequestInterceptors(per...))
	if n == 0 {
		c.external(0, msgOrNil(res), err)
		return
	}
	vm.Reach("intercepted")
	vm.Assert(c.count[0] == 1, "the outermost interceptor did not run once")
	vm.Assert(err == c.err[0], "the call's error is not the outermost interceptor's")
	vm.Assert(msgOrNil(res) == c.res[0], "the call's result is not the outermost interceptor's")
}

func msgOrNil(m *msg) proto.Message {
	if m == nil {
		return nil
	}
	return m
}

type mh struct {
	send, recv, closing *chain
	k                   int
	next                psrpc.ClientMultiRPCHandler
}

func (h *mh) Send(ctx context.Context, m proto.Message, opts ...psrpc.RequestOption) error {
	vm.Assert(m.(*msg).RequestId == "q", "request changed")
	vm.Assert(len(opts) == 1, "request options not passed on")
	_, err := h.send.enter(h.k, func() (proto.Message, error) { return nil, h.next.Send(ctx, m, opts...) })
	return err
}
func (h *mh) Recv(m proto.Message, err error) {
	if h.recv.rerr {
		var pe psrpc.Error
		vm.Assert(errors.As(err, &pe) && pe.Error() == "real", "error changed")
	} else {
		vm.Assert(err == nil && m.(*msg).ServerId == "real", "response changed")
	}
	_, _ = h.recv.enter(h.k, func() (proto.Message, error) { h.next.Recv(m, err); return nil, nil })
}
func (h *mh) Close() {
	_, _ = h.closing.enter(h.k, func() (proto.Message, error) { h.next.Close(); return nil, nil })
}

// Client interceptors of a multi-response call.
//
//verif:harness P13 coop=1 rounds=6 timers=3 native=1 cases=9
func Multi() {
	nb, np := vm.Case()%3, vm.Case()/3
	n := nb + np
	i := psrpc.RPCInfo{Service: "S", Method: "M", Multi: true}
	send, recv, closing := simpleChain("send", n, i), simpleChain("recv", n, i), &chain{n: n, info: i, calls: [4]int{1, 1, 1, 1}, passive: true}
	recv.ext, recv.passive = false, true
	recv.fail[0] = vm.Bool("recvFails")
	recv.rerr = vm.Bool("resError")
	mk := func(k int) psrpc.ClientMultiRPCInterceptor {
		return func(i psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
			send.sameInfo(i)
			return &mh{send, recv, closing, k, next}
		}
	}
	var base, per []psrpc.ClientMultiRPCInterceptor
	for k := 0; k < nb; k++ {
		base = append(base, mk(k))
	}
	for k := 0; k < np; k++ {
		per = append(per, mk(nb+k))
	}
	b := bus.NewVBus()
	b.Cap = 20
	replied := false
	b.OnPub = func(ch bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Request); ok {
			if _, err := send.real(); err != nil {
				return err
			}
			if !replied {
				replied = true
				if recv.rerr {
					reply(b, &internal.Response{RequestId: r.RequestId, Error: "real", Code: "c"})
				} else {
					p, _ := bus.SerializePayload(&msg{ServerId: "real"})
					reply(b, &internal.Response{RequestId: r.RequestId, RawResponse: p})
				}
			}
		}
		return nil
	}
	cl, err := client.NewRPCClient(def("cli", true), b, psrpc.WithClientMultiRPCInterceptors(base...))
	vm.Assert(err == nil, "client")
	ch, err := client.RequestMulti[*msg](context.Background(), cl, "M", nil, &msg{RequestId: "q"}, both(psrpc.WithRequestInterceptors(per...), psrpc.WithRequestTimeout(time.Second)))
	if n == 0 {
		send.external(0, nil, err)
	} else {
		vm.Assert(send.count[0] == 1, "the outermost interceptor did not run once")
		vm.Assert(err == send.err[0], "the call's error is not the outermost interceptor's")
	}
	if err != nil {
		return
	}
	want := 1
	for k := 0; k < n; k++ {
		want *= recv.calls[k]
	}
	got := 0
	for r := range ch {
		got++
		vm.Assert((r.Err != nil) == recv.rerr, "response changed")
	}
	vm.Reach("ended")
	if replied {
		vm.Reach("responses")
		vm.Assert(got == want, "wrong number of responses")
	} else {
		vm.Assert(got == 0, "response invented")
	}
	if send.count[n] > 0 && n > 0 {
		vm.Assert(closing.count[0] == 1, "Close did not reach the outermost interceptor once")
	}
}

func both(a, b psrpc.RequestOption) psrpc.RequestOption {
	return func(o *psrpc.RequestOpts) { a(o); b(o) }
}

type sh struct {
	recv, send, closing *chain
	k                   int
	next                psrpc.StreamHandler
}

func (h *sh) Recv(m proto.Message) error {
	vm.Assert(m.(*msg).RequestId == "in", "message changed")
	_, err := h.recv.enter(h.k, func() (proto.Message, error) { return nil, h.next.Recv(m) })
	return err
}
func (h *sh) Send(m proto.Message, opts ...psrpc.StreamOption) error {
	vm.Assert(m.(*msg).RequestId == "q", "message changed")
	vm.Assert(len(opts) == 1, "stream options not passed on")
	_, err := h.send.enter(h.k, func() (proto.Message, error) { return nil, h.next.Send(m, opts...) })
	return err
}
func (h *sh) Close(cause error) error {
	vm.Assert(h.closing.count[h.k] > 0 || cause == errs[3], "cause changed")
	_, err := h.closing.enter(h.k, func() (proto.Message, error) { return nil, h.next.Close(cause) })
	return err
}

// Stream interceptors of an opened stream.
//
//verif:harness P13 coop=1 rounds=9 native=1 cases=9
func Stream() {
	nb, np := vm.Case()%3, vm.Case()/3
	n := nb + np
	i := psrpc.RPCInfo{Service: "S", Method: "M"}
	send, recv, closing := simpleChain("send", n, i), simpleChain("recv", n, i), &chain{n: n, info: i, calls: [4]int{1, 1, 1, 1}, passive: true}
	closeFails := vm.Bool("closeFails")
	recv.ext, recv.passive = false, true
	recv.fail[0] = vm.Bool("recvFails")
	mk := func(k int) psrpc.StreamInterceptor {
		return func(i psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
			send.sameInfo(i)
			return &sh{recv, send, closing, k, next}
		}
	}
	var base, per []psrpc.StreamInterceptor
	for k := 0; k < nb; k++ {
		base = append(base, mk(k))
	}
	for k := 0; k < np; k++ {
		per = append(per, mk(nb+k))
	}
	b := bus.NewVBus()
	b.Cap = 40
	to := info.GetStreamChannel("S", "cli").Legacy
	acks, closes := 0, 0
	id := ""
	exp := time.Now().Add(time.Hour).UnixNano()
	b.OnPub = func(ch bus.Channel, m proto.Message) error {
		r, ok := m.(*internal.Stream)
		if !ok {
			return nil
		}
		ack := &internal.Stream{StreamId: r.StreamId, RequestId: r.RequestId, Expiry: exp, Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}}
		id = r.StreamId
		switch r.Body.(type) {
		case *internal.Stream_Open:
			b.Inject(to, bus.Encode(ack))
		case *internal.Stream_Message:
			if _, err := send.real(); err != nil {
				return err
			}
			b.Inject(to, bus.Encode(ack))
		case *internal.Stream_Ack:
			acks++
		case *internal.Stream_Close:
			closes++
			if closeFails {
				return errs[4]
			}
		}
		return nil
	}
	cl, err := client.NewRPCClientWithStreams(def("cli", false), b, psrpc.WithClientStreamInterceptors(base...))
	vm.Assert(err == nil, "client")
	st, err := client.OpenStream[*msg, *msg](context.Background(), cl, "M", nil, psrpc.WithRequestInterceptors(per...))
	vm.Assert(err == nil, "open")
	vm.Reach("opened")
	err = st.Send(&msg{RequestId: "q"}, psrpc.WithTimeout(time.Minute))
	if n == 0 {
		send.external(0, nil, err)
	} else {
		vm.Assert(send.count[0] == 1 && err == send.err[0], "the result of Send is not the outermost interceptor's")
	}
	p, _ := bus.SerializePayload(&msg{RequestId: "in"})
	b.Inject(to, bus.Encode(&internal.Stream{StreamId: id, RequestId: "in", Expiry: exp, Body: &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: p}}}))
	want := 1
	for k := 0; k < n; k++ {
		want *= recv.calls[k]
	}
	for k := 0; k < want; k++ {
		m, ok := <-st.Channel()
		vm.Assert(ok && m.RequestId == "in", "message changed")
	}
	if want > 0 {
		err = st.Close(errs[3])
		vm.Assert(closes == 1, "Close did not reach the real handler once")
		vm.Assert(closeFails == (err != nil), "the result of Close changed")
		vm.Assert(n == 0 || closing.count[0] >= 1 && closing.count[n-1] >= 1, "Close did not run through the interceptors")
	}
	vm.Final(func() {
		vm.Assert(n == 0 || recv.count[0] == 1, "Recv did not reach the outermost interceptor once")
		vm.Reach("received")
		ok := n == 0 || recv.err[0] == nil
		vm.Assert((acks == 1) == ok, "the acknowledgement does not follow the outermost interceptor's result")
	})
}

type short struct {
	psrpc.ClientMultiRPCHandler
	send func(req proto.Message) error
}

func (s *short) Send(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) error {
	return s.send(req)
}

// Shared: two calls of one client at the same time, each with an interceptor of its own after the three
// of the client, switching at every memory access (case 0: unary, case 1: multi).
//
//verif:harness P13 cases=2 rounds=2 slot=5 fine=pkg/client,internal/interceptors
func Shared() {
	b := bus.NewVBus()
	multi := vm.Case() == 1
	sd := &info.ServiceDefinition{Name: "S", ID: "cli"}
	sd.RegisterMethod("M", false, multi, false, false)
	var log [2][]string
	call := func(req proto.Message) int {
		if req.(*msg).ServerId == "b" {
			return 1
		}
		return 0
	}
	unary := func(name string, last bool) psrpc.ClientRPCInterceptor {
		return func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
			return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
				k := call(req)
				log[k] = append(log[k], name)
				if last {
					return nil, nil
				}
				return next(ctx, req, opts...)
			}
		}
	}
	many := func(name string, last bool) psrpc.ClientMultiRPCInterceptor {
		return func(_ psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
			return &short{next, func(req proto.Message) error {
				k := call(req)
				log[k] = append(log[k], name)
				if last {
					return nil
				}
				return next.Send(context.Background(), req)
			}}
		}
	}
	var opts []psrpc.ClientOption
	for _, n := range []string{"1", "2", "3"} {
		opts = append(opts, psrpc.WithClientRPCInterceptors(unary(n, false)), psrpc.WithClientMultiRPCInterceptors(many(n, false)))
	}
	c, err := client.NewRPCClient(sd, b, opts...)
	vm.Assert(err == nil, "client")
	done := 0
	for _, n := range []string{"a", "b"} {
		go func() {
			if multi {
				_, err := client.RequestMulti[*msg](context.Background(), c, "M", nil, &msg{ServerId: n}, psrpc.WithRequestInterceptors(many(n, true)))
				vm.Assert(err == nil, "error invented")
			} else {
				_, err := client.RequestSingle[*msg](context.Background(), c, "M", nil, &msg{ServerId: n}, psrpc.WithRequestInterceptors(unary(n, true)))
				vm.Assert(err == nil, "error invented")
			}
			done++
		}()
	}
	vm.Final(func() {
		vm.Assert(done == 2, "call never returns")
		for k, n := range []string{"a", "b"} {
			l := log[k]
			vm.Assert(len(l) == 4 && l[0] == "1" && l[1] == "2" && l[2] == "3" && l[3] == n, "a call ran the interceptors of another")
		}
	})
}
