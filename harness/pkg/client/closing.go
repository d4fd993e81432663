package client

import (
	"context"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
)

// vop runs the k-th kind of operation of a client.
func vop(ctx context.Context, c *RPCClient, k int) error {
	var err error
	switch k {
	case 0:
		_, err = RequestSingle[*vmsg](ctx, c, "M", nil, &vmsg{})
	case 1:
		_, err = RequestMulti[*vmsg](ctx, c, "N", nil, &vmsg{})
	case 2:
		_, err = Join[*vmsg](ctx, c, "N", nil)
	case 3:
		_, err = JoinQueue[*vmsg](ctx, c, "N", nil)
	case 4:
		_, err = OpenStream[*vmsg, *vmsg](ctx, c, "M", nil)
	}
	return err
}

// VerifClosedOps: an operation on a client that was closed - once, twice or by losing one of its
// subscriptions - fails at once and touches neither the bus nor the client.
//
//verif:harness P20 cases=5 rounds=3 coop=1 native=1
func VerifClosedOps() {
	b := bus.NewVBus()
	c := vclient(b, false, withStreams())
	how := vm.Choose("how", 5)
	opened, published := b.Opened, 0
	b.OnPub = func(bus.Channel, proto.Message) error {
		published++
		vm.Assert(!c.closed.IsBroken(), "a closed client publishes")
		return nil
	}
	switch how {
	case 0:
		c.Close()
	case 1:
		c.Close()
		c.Close()
	default:
		b.Subs[how-2].Lose()
		<-c.closed.Watch()
	}
	err := vop(context.Background(), c, vm.Case())
	vm.Reach("refused")
	vm.Assert(err == error(psrpc.ErrClientClosed), "an operation on a closed client does not fail with 'client is closed'")
	vm.Assert(published == 0 && b.Opened == opened, "a closed client publishes or subscribes")
	vm.Assert(len(c.responseChannels)+len(c.claimRequests)+len(c.streamChannels) == 0, "a closed client keeps bookkeeping")
	vm.Final(func() { vclosed(b) })
}

func vclosed(b *bus.VBus) {
	vm.Reach("closed")
	vm.Assert(b.Opened == 3, "subscriptions of a client")
	for _, s := range b.Subs {
		vm.Assert(s.Closes > 0, "a subscription of a closed client is left open")
		vm.Assert(s.Closes < 2, "a subscription of a closed client is closed twice")
	}
}

// VerifCloseRaces: a call in progress (unary, multi-response, opening a stream) while the client is
// closed twice concurrently or loses a subscription.
//
//verif:harness P20 cases=8 rounds=5 event=1 clock=-1
func VerifCloseRaces() {
	b := bus.NewVBus()
	b.Cap = 6
	c := vclient(b, false, withStreams())
	k := vm.Case() % 4
	mode := vm.Case() / 4
	ended := false
	open := 0
	b.OnPub = func(_ bus.Channel, m proto.Message) error {
		switch r := m.(type) {
		case *internal.Request:
			if mode > 0 || vm.Bool("answer") {
				vreply(b, &internal.Response{RequestId: r.RequestId, RawResponse: vpayload("v")})
			}
		case *internal.Stream:
			if r.GetOpen() != nil {
				open++
				if k == 3 {
					vstreamMsg(b, &internal.Stream{StreamId: r.StreamId, RequestId: r.RequestId, Expiry: r.Expiry, Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}})
				}
			} else if r.GetClose() != nil {
				open--
			}
		}
		return nil
	}
	go func() {
		if mode == 0 {
			time.Sleep(time.Duration(vm.Int("at", 0, 2)) * 400 * vms)
		}
		start := vm.Clock()
		switch k {
		case 0:
			_ = vop(context.Background(), c, 0)
		case 1:
			ch, err := RequestMulti[*vmsg](context.Background(), c, "N", nil, &vmsg{})
			if err == nil {
				for range ch {
				}
			}
		default:
			st, err := OpenStream[*vmsg, *vmsg](context.Background(), c, "M", nil)
			if err == nil {
				for range st.Channel() {
				}
				vm.Reach("stream ended")
				vm.Assert(st.Err() != nil, "a stream ends without cause")
			}
		}
		vm.Assert(k == 3 || vm.Clock()-start <= int64(time.Second)+vm.Slack(), "a call outlives its timeout")
		ended = true
	}()
	go func() {
		time.Sleep(time.Duration(vm.Int("closeAt", 0, 2-mode)) * 400 * vms)
		if mode == 0 {
			go c.Close()
			c.Close()
		} else {
			b.Subs[k%3].Lose()
		}
	}()
	vm.Final(func() {
		vm.Assert(ended, "a call in progress never ends")
		vm.Assert(open == 0, "an open stream is not ended")
		vm.Assert(len(c.responseChannels)+len(c.claimRequests)+len(c.streamChannels) == 0, "a closed client keeps bookkeeping")
		vm.Assert(c.closed.IsBroken(), "losing a subscription does not close the client")
		vclosed(b)
	})
}
