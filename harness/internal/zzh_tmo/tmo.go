package zzh_tmo

import (
	"context"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
)

type msg = internal.ClaimResponse

const lim = 1 << 45 // about 9 hours in ns

type world struct {
	b        *bus.VBus
	c        *client.RPCClient
	ctx      context.Context
	opts     []psrpc.RequestOption
	deadline int64
	hasDl    bool
	T        int64 // the timeout the request must be given before clamping
	bounded  bool  // T bounds the request even when there is a deadline
	t0, t1   int64
	seen     int
	looked   int
}

// setup chooses client timeouts, request options and the caller's deadline.
func setup(multi, streams bool) *world {
	w := &world{b: bus.NewVBus(), ctx: context.Background()}
	affinity := vm.Bool("affinity")
	sd := &info.ServiceDefinition{Name: "S", ID: "cli"}
	sd.RegisterMethod("M", affinity, multi, false, false)
	var copts []psrpc.ClientOption
	ct, st := int64(0), int64(psrpc.DefaultAffinityTimeout)
	if vm.Case()&1 != 0 {
		ct = int64(vm.Int("client", 0, lim))
		copts = append(copts, psrpc.WithClientTimeout(time.Duration(ct)))
	}
	if vm.Bool("selectTimeout") {
		st = int64(vm.Int("select", 0, lim))
		copts = append(copts, psrpc.WithClientSelectTimeout(time.Duration(st)))
	}
	var err error
	if streams {
		w.c, err = client.NewRPCClientWithStreams(sd, w.b, copts...)
	} else {
		w.c, err = client.NewRPCClient(sd, w.b, copts...)
	}
	vm.Assert(err == nil, "client")
	w.T = ct
	w.bounded = true
	if ct == 0 {
		w.T = int64(psrpc.DefaultClientTimeout)
	}
	defT := w.T
	if vm.Case()&2 != 0 {
		w.hasDl = true
		w.bounded = ct != 0
		d := time.Now().Add(time.Duration(vm.Int("left", -1<<40, lim)))
		w.deadline = d.UnixNano()
		w.ctx, _ = context.WithDeadline(w.ctx, d)
	}
	// an option sees the defaults chosen so far
	w.opts = append(w.opts, func(o *psrpc.RequestOpts) {
		w.looked++
		now := time.Now().UnixNano()
		if w.hasDl && (ct == 0 || w.deadline < w.t0+ct) {
			// at most what was left when the call was made, at least what is left now; zero means default
			if int64(o.Timeout) != int64(psrpc.DefaultClientTimeout) || w.deadline > now || w.deadline < w.t0 {
				vm.Reach("deadline bounds the timeout")
				vm.Assert(int64(o.Timeout) <= w.deadline-w.t0, "timeout exceeds the caller's deadline")
				vm.Assert(int64(o.Timeout) >= w.deadline-now, "timeout shorter than the caller's deadline")
			}
		} else if !w.hasDl || ct != 0 && w.deadline >= now+defT {
			vm.Reach("configured timeout")
			vm.Assert(int64(o.Timeout) == defT, "timeout is not the configured one")
		}
		s := o.SelectionOpts
		vm.Assert(int64(s.AffinityTimeout) == st, "affinity timeout does not follow the client")
		vm.Assert(s.AcceptFirstAvailable == !affinity, "accept-first default")
		if affinity {
			vm.Assert(s.ShortCircuitTimeout == psrpc.DefaultAffinityShortCircuit, "short-circuit default")
		} else {
			vm.Assert(s.ShortCircuitTimeout == 0, "short-circuit default")
		}
		vm.Assert(s.MinimumAffinity == 0 && s.MaximumAffinity == 0 && s.SelectionFunc == nil, "selection defaults")
	})
	if vm.Case()&4 != 0 {
		w.T = int64(vm.Int("option.timeout", 0, lim))
		w.bounded = true
		w.opts = append(w.opts, psrpc.WithRequestTimeout(time.Duration(w.T)))
	}
	if vm.Bool("selopt") {
		so := psrpc.SelectionOpts{AffinityTimeout: time.Duration(vm.Int("selopt.t", 0, lim)), MinimumAffinity: vm.F32("selopt.min"), AcceptFirstAvailable: vm.Bool("selopt.first")}
		w.opts = append(w.opts, psrpc.WithSelectionOpts(so))
		w.opts = append(w.opts, func(o *psrpc.RequestOpts) {
			vm.Assert(o.SelectionOpts.AffinityTimeout == so.AffinityTimeout && o.SelectionOpts.AcceptFirstAvailable == so.AcceptFirstAvailable, "selection options not overridden")
		})
	}
	w.t0 = time.Now().UnixNano()
	return w
}

// check decides what a published request carries.
func (w *world) check(sent, expiry int64) {
	w.seen++
	vm.Assert(sent >= w.t0 && sent <= time.Now().UnixNano(), "sending time")
	if w.hasDl {
		vm.Reach("with deadline")
		vm.Assert(expiry <= w.deadline, "expiry later than the caller's deadline")
	}
	want := sent + w.T
	if w.hasDl && (!w.bounded || w.deadline < want) {
		vm.Reach("clamped")
		want = w.deadline
	}
	vm.Assert(expiry == want, "expiry is not the sending time plus the timeout")
}

func (w *world) done() {
	vm.Assert(w.seen == 1 && w.looked > 0, "request not published once")
}

// Unary calls.
//
//verif:harness P14 coop=1 rounds=4 native=1 cases=8 timeout=300
func Unary() {
	w := setup(false, false)
	w.b.OnPub = func(_ bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Request); ok {
			w.check(r.SentAt, r.Expiry)
			w.b.Inject(info.GetResponseChannel("S", "cli").Legacy, bus.Encode(&internal.Response{RequestId: r.RequestId, Error: "x"}))
		}
		return nil
	}
	_, _ = client.RequestSingle[*msg](w.ctx, w.c, "M", nil, &msg{}, w.opts...)
	w.done()
}

// Multi-response calls.
//
//verif:harness P14 coop=1 rounds=4 native=1 cases=8 timeout=300
func Multi() {
	w := setup(true, false)
	w.b.OnPub = func(_ bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Request); ok {
			w.check(r.SentAt, r.Expiry)
		}
		return nil
	}
	_, _ = client.RequestMulti[*msg](w.ctx, w.c, "M", nil, &msg{}, w.opts...)
	w.done()
}

// Stream openings.
//
//verif:harness P14 coop=1 rounds=4 native=1 cases=8 timeout=300
func Stream() {
	w := setup(false, true)
	w.b.OnPub = func(_ bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Stream); ok && r.GetOpen() != nil {
			w.check(r.SentAt, r.Expiry)
			w.b.Inject(info.GetStreamChannel("S", "cli").Legacy, bus.Encode(&internal.Stream{StreamId: r.StreamId, RequestId: r.RequestId, Expiry: time.Now().Add(time.Hour).UnixNano(), Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}}))
		}
		return nil
	}
	_, _ = client.OpenStream[*msg, *msg](w.ctx, w.c, "M", nil, w.opts...)
	w.done()
}
