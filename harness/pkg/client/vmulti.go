package client

import (
	"context"
	"errors"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
)

// vanswer publishes the i-th response of a kind for a request: 1 payload, 2 error, 3 undecodable, 4 another call's.
func vanswer(b *bus.VBus, id string, k, i int) {
	switch k {
	case 1:
		vreply(b, &internal.Response{RequestId: id, RawResponse: vpayload(vvals[i])})
	case 2:
		vreply(b, &internal.Response{RequestId: id, Error: vvals[i], Code: string(psrpc.NotFound)})
	case 3:
		vreply(b, &internal.Response{RequestId: id, RawResponse: []byte{0xFF}})
	case 4:
		vreply(b, &internal.Response{RequestId: "other", RawResponse: vpayload(vvals[i])})
	}
}

// vis tells whether r is what the i-th response of kind k has to become.
func vis(r *psrpc.Response[*vmsg], k, i int) bool {
	var e psrpc.Error
	switch k {
	case 1:
		return r.Err == nil && r.Result != nil && r.Result.ServerId == vvals[i]
	case 2:
		return errors.As(r.Err, &e) && e.Code() == psrpc.NotFound && e.Error() == vvals[i]
	case 3:
		return errors.As(r.Err, &e) && e.Code() == psrpc.MalformedResponse
	}
	return false
}

type vmultiCall struct {
	kind      [2]int
	reads     int // how many responses the consumer takes, -1: until the channel is closed
	got       [2]bool
	n         int
	last      int
	ended     bool
	cancelled bool
	start     int64
	returned  bool
}

func (u *vmultiCall) consume(ch <-chan *psrpc.Response[*vmsg]) {
	for u.reads < 0 || u.n < u.reads {
		r, ok := <-ch
		if !ok {
			vm.Assert(u.cancelled || vm.Clock()-u.start >= int64(time.Second), "channel closed before the call ended")
			u.ended = true
			return
		}
		i := u.last
		for i < 2 && !vis(r, u.kind[i], i) {
			i++
		}
		vm.Assert(i < 2, "delivered out of order, twice or altered")
		if i < 2 {
			u.got[i] = true
		}
		u.last = i + 1
		u.n++
	}
	u.returned = true
}

func (u *vmultiCall) open(ctx context.Context, b *bus.VBus, c *RPCClient, respond func(id string)) <-chan *psrpc.Response[*vmsg] {
	b.OnPub = func(_ bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Request); ok {
			respond(r.RequestId)
		}
		return nil
	}
	u.start = vm.Clock()
	ch, err := RequestMulti[*vmsg](ctx, c, "N", nil, &vmsg{})
	vm.Assert(err == nil && ch != nil, "request failed")
	return ch
}

// VerifMulti: a multi-response call whose two responses (payload, error, undecodable or another
// call's, one case per pair) arrive at arbitrary times, and whose caller may cancel at any time.
// What arrived before the timeout and the cancellation has to be delivered.
//
//verif:harness P06 cases=16 rounds=9 rounds.thorough=12 event=1 clock=-1
func VerifMulti() {
	b := bus.NewVBus()
	c := vclient(b, false, psrpc.WithClientChannelSize(1))
	u := &vmultiCall{kind: [2]int{vm.Case()%4 + 1, vm.Case()/4 + 1}, reads: -1}
	ctx, cancel := context.WithCancel(context.Background())
	at := [2]int64{int64(vm.Int("d0", 0, 3)) * 400 * vms, int64(vm.Int("d1", 0, 3)) * 400 * vms}
	end := int64(time.Second)
	go func() {
		ch := u.open(ctx, b, c, func(id string) {
			go func() {
				for i, k := range u.kind {
					time.Sleep(time.Duration(at[i]))
					vanswer(b, id, k, i)
				}
			}()
		})
		u.consume(ch)
	}()
	if vm.Bool("cancel") {
		at := int64(vm.Int("cancelAt", 0, 3))*500*vms + 50*vms
		if at < end {
			end = at
		}
		go func() {
			time.Sleep(time.Duration(at))
			u.cancelled = true
			cancel()
		}()
	}
	vm.Final(func() {
		vm.Assert(u.ended, "the channel is never closed")
		vm.Assert(len(c.responseChannels) == 0, "bookkeeping of a finished call left behind")
		t := int64(0)
		for i, k := range u.kind {
			t += at[i]
			if k <= 3 && t+vm.Slack() < end {
				vm.Reach("in time")
				vm.Assert(u.got[i], "a response that arrived in time was not delivered")
			}
		}
	})
}

// VerifMultiRaces: two payloads, timeout and cancellation with every interleaving; the consumer
// takes all responses, none, or one.
//
//verif:harness P06 rounds=3 cases=3
func VerifMultiRaces() {
	b := bus.NewVBus()
	c := vclient(b, false, psrpc.WithClientChannelSize(1))
	u := &vmultiCall{kind: [2]int{1, 1}, reads: vm.Case() - 1}
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		u.consume(u.open(ctx, b, c, func(id string) {
			vanswer(b, id, 1, 0)
			vanswer(b, id, 1, 1)
		}))
	}()
	if vm.Bool("cancel") {
		go func() {
			u.cancelled = true
			cancel()
		}()
	}
	vm.Final(func() {
		vm.Assert(u.ended || u.reads >= 0, "the channel is never closed")
		vm.Assert(len(c.responseChannels) == 0, "bookkeeping of a finished call left behind")
	})
}
