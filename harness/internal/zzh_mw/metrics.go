package zzh_mw

import (
	"context"
	"errors"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/middleware"
)

// note is one report to the observer.
type note struct {
	kind   string
	role   middleware.MetricRole
	info   psrpc.RPCInfo
	dur    int64
	err    error
	n, e   int
	rx, tx int
}

type observer struct{ got []note }

func (o *observer) OnUnaryRequest(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, err error, rx, tx int) {
	o.got = append(o.got, note{kind: "unary", role: role, info: i, dur: int64(d), err: err, rx: rx, tx: tx})
}
func (o *observer) OnMultiRequest(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, n, e, rx, tx int) {
	o.got = append(o.got, note{kind: "multi", role: role, info: i, dur: int64(d), n: n, e: e, rx: rx, tx: tx})
}
func (o *observer) OnStreamSend(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, err error, b int) {
	o.got = append(o.got, note{kind: "send", role: role, info: i, dur: int64(d), err: err, rx: b})
}
func (o *observer) OnStreamRecv(role middleware.MetricRole, i psrpc.RPCInfo, err error, b int) {
	o.got = append(o.got, note{kind: "recv", role: role, info: i, err: err, rx: b})
}
func (o *observer) OnStreamOpen(role middleware.MetricRole, i psrpc.RPCInfo) {
	o.got = append(o.got, note{kind: "open", role: role, info: i})
}
func (o *observer) OnStreamClose(role middleware.MetricRole, i psrpc.RPCInfo) {
	o.got = append(o.got, note{kind: "close", role: role, info: i})
}

func same(a, b psrpc.RPCInfo) bool {
	return a.Service == b.Service && a.Method == b.Method && len(a.Topic) == 1 && len(b.Topic) == 1 && a.Topic[0] == b.Topic[0] && a.Multi == b.Multi
}

// expect checks the reports; durations may be late by what a real machine needs.
func (o *observer) expect(want ...note) {
	vm.Assert(len(o.got) == len(want), "number of reports")
	for k, w := range want {
		g := o.got[k]
		vm.Assert(g.kind == w.kind, "kind of report")
		vm.Assert(g.role == w.role && same(g.info, w.info), "role or call reported wrongly")
		vm.Assert(g.err == w.err, "error reported wrongly")
		vm.Assert(g.n == w.n && g.e == w.e, "counts reported wrongly")
		vm.Assert(g.rx == w.rx && g.tx == w.tx, "sizes reported wrongly")
		vm.Assert(g.dur >= w.dur && g.dur <= w.dur+vm.Slack(), "duration reported wrongly")
	}
	o.got = nil
}

func someMsg(name string, k ...int) *msg { return &msg{RequestId: vm.Str(name, 2, k...)} }

// outcome is what the wrapped handler does.
func outcome(name string, k ...int) (res proto.Message, err error) {
	if vm.Bool(name+".res", k...) {
		res = someMsg(name+".msg", k...)
	}
	if vm.Bool(name+".fail", k...) {
		err = errors.New("failed")
		if vm.Bool(name+".coded", k...) {
			err = psrpc.NewErrorf(psrpc.NotFound, "missing")
		}
	}
	return
}

func clientOpts(o *observer) *psrpc.ClientOpts {
	co := &psrpc.ClientOpts{}
	middleware.WithClientMetrics(o)(co)
	vm.Assert(len(co.RpcInterceptors) == 1 && len(co.MultiRPCInterceptors) == 1 && len(co.StreamInterceptors) == 1, "client interceptors")
	return co
}

func serverOpts(o *observer) *psrpc.ServerOpts {
	so := &psrpc.ServerOpts{}
	middleware.WithServerMetrics(o)(so)
	vm.Assert(len(so.Interceptors) == 1 && len(so.StreamInterceptors) == 1, "server interceptors")
	return so
}

// Unary: two calls through the client's metrics (case 0), two requests through the server's (case 1:
// unary, case 2: multi), of any outcome and duration.
//
//verif:harness P17 event=1 rounds=5 cases=3 native=1 clock=-1
func Unary() {
	o := &observer{}
	info := psrpc.RPCInfo{Service: "S", Method: "M", Topic: []string{"t"}, Multi: vm.Case() == 2}
	type key struct{}
	ctx := context.WithValue(context.Background(), key{}, 1)
	co, so := clientOpts(o), serverOpts(o)
	done := 0
	vm.Final(func() { vm.Assert(done == 2, "call never returns") })
	run := func(call int) {
		res, err := outcome("next", call)
		req := someMsg("req", call)
		d := int64(vm.Int("dur", 0, 7, call)) * 8 * unit
		calls := 0
		next := func(c context.Context, m proto.Message) (proto.Message, error) {
			calls++
			vm.Assert(c == ctx && m == proto.Message(req), "request changed")
			time.Sleep(time.Duration(d))
			return res, err
		}
		var gr proto.Message
		var ge error
		role := middleware.ClientRole
		if vm.Case() == 0 {
			marks := 0
			gr, ge = co.RpcInterceptors[0](info, func(c context.Context, m proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
				for _, f := range opts {
					f(nil)
				}
				return next(c, m)
			})(ctx, req, func(*psrpc.RequestOpts) { marks++ })
			vm.Assert(marks == 1, "options changed")
		} else {
			role = middleware.ServerRole
			gr, ge = so.Interceptors[0](ctx, req, info, next)
		}
		vm.Assert(calls == 1, "next handler not called once")
		vm.Assert(gr == res && ge == err, "result changed")
		w := note{kind: "unary", role: role, info: info, dur: d, err: err, rx: proto.Size(req), tx: proto.Size(res)}
		if vm.Case() == 2 {
			w.kind, w.err = "multi", nil
			if err == nil {
				vm.Reach("response counted")
				w.n = 1
			} else {
				vm.Reach("error counted")
				w.e = 1
			}
		}
		o.expect(w)
		done++
	}
	run(0)
	run(1)
}

type multiStub struct {
	f func(kind string, m proto.Message, err error) error
}

func (s *multiStub) Send(ctx context.Context, m proto.Message, opts ...psrpc.RequestOption) error {
	for _, f := range opts {
		f(nil)
	}
	return s.f("send", m, nil)
}
func (s *multiStub) Recv(m proto.Message, err error) { _ = s.f("recv", m, err) }
func (s *multiStub) Close()                          { _ = s.f("close", nil, nil) }

// Multi: a multi-response call with any responses through the client's metrics, another one alongside.
//
//verif:harness P17 event=1 rounds=6 native=1 clock=-1
func Multi() {
	o := &observer{}
	info := psrpc.RPCInfo{Service: "S", Method: "M", Topic: []string{"t"}, Multi: true}
	co := clientOpts(o)
	var kind string
	var arg proto.Message
	var argErr, ret error
	calls := 0
	stub := &multiStub{f: func(k string, m proto.Message, err error) error {
		calls++
		vm.Assert(k == kind && m == arg && err == argErr, "changed on the way to the next handler")
		return ret
	}}
	h := co.MultiRPCInterceptors[0](info, stub)
	other := co.MultiRPCInterceptors[0](info, &multiStub{f: func(string, proto.Message, error) error { return nil }})
	vm.Assert(len(o.got) == 0, "reported before the end")
	wait := int64(vm.Int("before", 0, 7)) * 8 * unit
	d := int64(vm.Int("dur", 0, 7)) * 8 * unit
	done := false
	vm.Final(func() { vm.Assert(done, "never returns") })
	time.Sleep(time.Duration(wait))
	req := someMsg("req")
	kind, arg = "send", req
	if vm.Bool("sendFails") {
		ret = errors.New("publish")
	}
	marks := 0
	vm.Assert(h.Send(context.Background(), req, func(*psrpc.RequestOpts) { marks++ }) == ret, "result of Send changed")
	vm.Assert(calls == 1 && marks == 1, "Send not forwarded once")
	_ = other.Send(context.Background(), &msg{RequestId: "other"})
	other.Recv(&msg{}, nil)
	n := vm.Choose("responses", 4)
	w := note{kind: "multi", role: middleware.ClientRole, info: info, dur: d, tx: proto.Size(req)}
	for i := 0; i < n; i++ {
		res, err := outcome("res", i)
		if err == nil {
			w.n++
		} else {
			w.e++
		}
		w.rx += proto.Size(res)
		kind, arg, argErr = "recv", res, err
		h.Recv(res, err)
		vm.Assert(calls == 2+i, "Recv not forwarded once")
	}
	time.Sleep(time.Duration(d))
	vm.Assert(len(o.got) == 0, "reported before the end")
	kind, arg, argErr = "close", nil, nil
	h.Close()
	vm.Assert(calls == 2+n, "Close not forwarded once")
	o.expect(w)
	done = true
}

type streamStub struct {
	f func(kind string, m proto.Message, opts int, err error) error
}

func (s *streamStub) Recv(m proto.Message) error { return s.f("recv", m, 0, nil) }
func (s *streamStub) Send(m proto.Message, opts ...psrpc.StreamOption) error {
	return s.f("send", m, len(opts), nil)
}
func (s *streamStub) Close(err error) error { return s.f("close", nil, 0, err) }

// Stream: any sequence of sends, receives and closes of a stream of either side.
//
//verif:harness P17 event=1 rounds=7 cases=2 native=1 clock=-1
func Stream() {
	o := &observer{}
	info := psrpc.RPCInfo{Service: "S", Method: "M", Topic: []string{"t"}}
	role := middleware.ClientRole
	var it psrpc.StreamInterceptor
	if vm.Case() == 0 {
		it = clientOpts(o).StreamInterceptors[0]
	} else {
		role = middleware.ServerRole
		it = serverOpts(o).StreamInterceptors[0]
	}
	var kind string
	var arg proto.Message
	var argErr, ret error
	var sleep int64
	calls, nopts := 0, 0
	s := it(info, &streamStub{f: func(k string, m proto.Message, opts int, err error) error {
		calls++
		vm.Assert(k == kind && m == arg && err == argErr && opts == nopts, "changed on the way to the next handler")
		time.Sleep(time.Duration(sleep))
		return ret
	}})
	o.expect(note{kind: "open", role: role, info: info})
	n := 3
	if vm.Thorough() {
		n = 4
	}
	closed := false
	done := 0
	vm.Final(func() { vm.Assert(done == n, "never returns") })
	type plan struct {
		fails bool
		m     *msg
		op    int
		dur   int64
	}
	var plans []plan
	for i := 0; i < n; i++ {
		plans = append(plans, plan{vm.Bool("fails", i), someMsg("msg", i), vm.Choose("op", 3, i), int64(vm.Int("dur", 0, 7, i)) * 8 * unit})
	}
	step := func(p plan) {
		ret = nil
		if p.fails {
			ret = errors.New("failed")
		}
		sleep, argErr, nopts = 0, nil, 0
		var err error
		m := p.m
		arg = m
		switch p.op {
		case 0:
			kind, nopts = "send", 1
			sleep = p.dur
			err = s.Send(m, psrpc.WithTimeout(5))
			o.expect(note{kind: "send", role: role, info: info, dur: sleep, err: ret, rx: proto.Size(m)})
		case 1:
			kind = "recv"
			err = s.Recv(m)
			o.expect(note{kind: "recv", role: role, info: info, err: ret, rx: proto.Size(m)})
		case 2:
			kind, arg = "close", nil
			argErr = errors.New("cause")
			err = s.Close(argErr)
			if closed {
				vm.Reach("closed again")
				o.expect()
			} else {
				o.expect(note{kind: "close", role: role, info: info})
			}
			closed = true
		}
		vm.Assert(err == ret, "result changed")
		done++
		vm.Assert(calls == done, "not forwarded once")
	}
	for _, p := range plans {
		step(p)
	}
}

type custom struct{ a int }

// Recovery: the server's recovery interceptor around a handler that returns or panics, also inside metrics.
//
//verif:harness P17 native=1
func Recovery() {
	res, err := outcome("next")
	how := vm.Choose("panic", 5)
	req := someMsg("req")
	info := psrpc.RPCInfo{Service: "S", Method: "M", Topic: []string{"t"}}
	ctx := context.Background()
	calls := 0
	handler := func(c context.Context, m proto.Message) (proto.Message, error) {
		calls++
		vm.Assert(c == ctx && m == proto.Message(req), "request changed")
		switch how {
		case 1:
			panic("text")
		case 2:
			panic(errors.New("error"))
		case 3:
			var p *custom
			p.a++
		case 4:
			panic(&custom{1})
		}
		return res, err
	}
	o := &observer{}
	rec := middleware.WithServerRecovery()
	var gr proto.Message
	var ge error
	if vm.Bool("metrics") {
		gr, ge = serverOpts(o).Interceptors[0](ctx, req, info, func(c context.Context, m proto.Message) (proto.Message, error) {
			return rec(c, m, info, handler)
		})
		vm.Assert(len(o.got) == 1 && o.got[0].err == ge, "error reported wrongly")
	} else {
		gr, ge = rec(ctx, req, info, handler)
	}
	vm.Assert(calls == 1, "handler not called once")
	if how == 0 {
		vm.Reach("returned")
		vm.Assert(gr == res && ge == err, "result changed")
	} else {
		vm.Reach("panicked")
		var pe psrpc.Error
		vm.Assert(errors.As(ge, &pe) && pe.Code() == psrpc.Internal, "panic is not an internal error")
		vm.Assert(gr == nil, "response invented")
	}
}

// CloseTwice: a stream of either side is closed by two threads while a third one sends, with a next
// handler that lets the others run.
//
//verif:harness P17 rounds=2 rounds.thorough=3 cases=2
func CloseTwice() {
	o := &observer{}
	info := psrpc.RPCInfo{Service: "S", Method: "M", Topic: []string{"t"}}
	it := clientOpts(o).StreamInterceptors[0]
	if vm.Case() == 1 {
		it = serverOpts(o).StreamInterceptors[0]
	}
	fwd := 0
	s := it(info, &streamStub{f: func(k string, m proto.Message, opts int, err error) error {
		vm.Yield()
		if k == "close" {
			fwd++
		}
		return nil
	}})
	done := 0
	for i := 0; i < 2; i++ {
		go func() {
			vm.Assert(s.Close(nil) == nil, "result changed")
			done++
		}()
	}
	go func() {
		vm.Assert(s.Recv(&msg{}) == nil, "result changed")
		done++
	}()
	vm.Final(func() {
		vm.Assert(done == 3 && fwd == 2, "not forwarded once")
		opens, closes, recvs := 0, 0, 0
		for _, n := range o.got {
			switch n.kind {
			case "open":
				opens++
			case "close":
				closes++
			case "recv":
				recvs++
			}
		}
		vm.Assert(opens == 1 && closes == 1 && recvs == 1, "number of reports")
	})
}
