package client

import (
	"context"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/info"
)

// vprobe registers another call whose owner reads nothing: the message for it has to reach its
// channel (capacity 1) whatever traffic came before it for the calls under test.
func vprobe(c *RPCClient) (chan *internal.Response, chan *internal.ClaimRequest, chan *internal.Stream) {
	r, q, s := make(chan *internal.Response, 1), make(chan *internal.ClaimRequest, 1), make(chan *internal.Stream, 1)
	never := make(chan struct{})
	c.mu.Lock()
	c.responseChannels["probe"] = responseChannel{r, never}
	c.claimRequests["probe"] = claimChannel{q, never}
	c.streamChannels["probe"] = streamChannels{s, never}
	c.mu.Unlock()
	return r, q, s
}

func vstreamMsg(b *bus.VBus, m *internal.Stream) {
	b.Inject(info.GetStreamChannel("S", "cli").Legacy, bus.Encode(m))
}

func vprobeAll(b *bus.VBus) {
	vreply(b, &internal.Response{RequestId: "probe", RawResponse: vpayload("p")})
	vclaim(b, "probe", "p")
	vstreamMsg(b, &internal.Stream{StreamId: "probe"})
}

// VerifDispatch: a call of one kind (unary, claimed unary, abandoned multi-response call whose
// consumer reads nothing) gets more responses and claims than it wants; a message for another call
// that comes after them is delivered once the call has ended.
//
//verif:harness P24 cases=3 rounds=8 rounds.thorough=10 event=1 clock=-1
func VerifDispatch() {
	b := bus.NewVBus()
	k := vm.Case()
	c := vclient(b, k == 1, psrpc.WithClientChannelSize(1), withStreams())
	r, q, s := vprobe(c)
	flood := func(id string) {
		for i := 0; i < 3; i++ {
			vreply(b, &internal.Response{RequestId: id, RawResponse: vpayload("v")})
			if k == 1 {
				vclaim(b, id, "s0")
			}
		}
		vprobeAll(b)
	}
	ended := false
	b.OnPub = func(_ bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Request); ok {
			id := r.RequestId
			go func() {
				time.Sleep(time.Duration(vm.Int("at", 0, 3)) * 400 * vms)
				flood(id)
			}()
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		switch k {
		case 2:
			_, err := RequestMulti[*vmsg](ctx, c, "N", nil, &vmsg{})
			vm.Assert(err == nil, "request failed")
		default:
			_, _ = RequestSingle[*vmsg](ctx, c, "M", nil, &vmsg{})
		}
		ended = true
	}()
	if vm.Bool("cancel") {
		go func() {
			time.Sleep(time.Duration(vm.Int("cancelAt", 0, 3))*500*vms + 50*vms)
			cancel()
		}()
	}
	vm.Final(func() {
		vm.Assert(ended, "the call never returns")
		vm.Assert(len(r) == 1, "a response for another call is never delivered")
		vm.Assert(len(q) == 1, "a claim for another call is never delivered")
		vm.Assert(len(s) == 1, "a message for another stream is never delivered")
		vm.Reach("delivered")
	})
}

// vslow is an interceptor whose receive side waits until it is let go.
type vslow struct {
	psrpc.StreamHandler
	hold chan struct{}
}

func (h *vslow) Recv(m proto.Message) error {
	<-h.hold
	return h.StreamHandler.Recv(m)
}

// VerifDispatchStream: an open stream whose consumer - an interceptor that is busy until some time - does
// not keep up with the messages that arrive; its owner closes it, or its context ends, some time before
// or after. Messages for other calls that come behind those of the stream are delivered in the end.
//
//verif:harness P24 cases=4 rounds=10 rounds.thorough=13 event=1 clock=-1
func VerifDispatchStream() {
	b := bus.NewVBus()
	b.Cap = 8
	c := vclient(b, false, psrpc.WithClientChannelSize(1), withStreams())
	r, q, s := vprobe(c)
	closed := false
	var id string
	var exp int64
	b.OnPub = func(_ bus.Channel, m proto.Message) error {
		is, ok := m.(*internal.Stream)
		if !ok || is.GetOpen() == nil {
			return nil
		}
		id, exp = is.StreamId, is.Expiry
		vstreamMsg(b, &internal.Stream{StreamId: id, RequestId: is.RequestId, Expiry: exp, Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}})
		return nil
	}
	hold := make(chan struct{})
	slow := psrpc.StreamInterceptor(func(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
		return &vslow{next, hold}
	})
	ctx, cancel := context.WithCancel(context.Background())
	closeAt := int64(vm.Int("closeAt", 0, 2)) * 200 * vms
	holdFor := int64(vm.Int("holdFor", 0, 2)) * 200 * vms
	n := 3 + vm.Case()/2
	go func() {
		st, err := OpenStream[*vmsg, *vmsg](ctx, c, "M", nil, psrpc.WithRequestInterceptors(slow))
		vm.Assert(err == nil, "the stream was acknowledged and does not open")
		if err != nil {
			return
		}
		for i := 0; i < n; i++ {
			vstreamMsg(b, &internal.Stream{StreamId: id, RequestId: "m", Expiry: exp, Body: &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: vpayload("v")}}})
		}
		vprobeAll(b)
		go func() {
			time.Sleep(time.Duration(holdFor))
			close(hold)
		}()
		time.Sleep(time.Duration(closeAt))
		if vm.Case()%2 == 0 {
			_ = st.Close(nil)
		} else {
			cancel()
		}
		closed = true
	}()
	vm.Final(func() {
		vm.Assert(closed, "stream never closed")
		vm.Assert(len(c.streamChannels) == 1, "bookkeeping of a closed stream left behind")
		vm.Assert(len(r) == 1, "a response for another call is never delivered")
		vm.Assert(len(q) == 1, "a claim for another call is never delivered")
		vm.Assert(len(s) == 1, "a message for another stream is never delivered")
		vm.Reach("delivered")
	})
}

// VerifDispatchRaces: a unary call with two responses and a message for another call behind them,
// with every interleaving of delivery, return, timeout and cancellation.
//
//verif:harness P24 rounds=2 slot=4
func VerifDispatchRaces() {
	b := bus.NewVBus()
	c := vclient(b, false)
	r, _, _ := vprobe(c)
	b.OnPub = func(_ bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Request); ok {
			vreply(b, &internal.Response{RequestId: r.RequestId, RawResponse: vpayload("v")})
			vreply(b, &internal.Response{RequestId: r.RequestId, RawResponse: vpayload("v")})
			vreply(b, &internal.Response{RequestId: "probe", RawResponse: vpayload("p")})
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	ended := false
	go func() {
		_, _ = RequestSingle[*vmsg](ctx, c, "M", nil, &vmsg{})
		ended = true
	}()
	if vm.Bool("cancel") {
		go cancel()
	}
	vm.Final(func() {
		vm.Assert(ended, "the call never returns")
		vm.Assert(len(r) == 1, "a response for another call is never delivered")
		vm.Reach("delivered")
	})
}
