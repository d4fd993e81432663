package client

import (
	"context"
	"errors"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
)

// vopen is the oracle of opening a stream.
type vopen struct {
	b       *bus.VBus
	c       *RPCClient
	claim   bool
	noAck   bool
	badAck  int // 1: for another request, 2: for another stream, 3: expired
	pubErr  bool
	offers  int // servers that offer
	badOff  bool
	failSel bool
	at      int64

	stream, request string
	expiry          int64
	acked           bool
	selected        bool
	closes          int
	cancelled       bool
	done            bool
	start, took     int64
	st              psrpc.ClientStream[*vmsg, *vmsg]
	err             error
}

func (u *vopen) ack() {
	m := &internal.Stream{StreamId: u.stream, RequestId: u.request, Expiry: u.expiry, Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}}
	switch u.badAck {
	case 1:
		m.RequestId = "other"
	case 2:
		m.StreamId = "other"
	}
	if u.badAck == 0 && vm.Clock() < u.expiry {
		u.acked = true
	}
	vstreamMsg(u.b, m)
}

func (u *vopen) later() {
	if u.at == 0 {
		u.ack()
		return
	}
	go func() {
		time.Sleep(time.Duration(u.at))
		u.ack()
	}()
}

func (u *vopen) publish(ch bus.Channel, m proto.Message) error {
	i := u.c.GetInfo("M", nil)
	switch r := m.(type) {
	case *internal.Stream:
		vm.Assert(ch.Legacy == i.GetStreamServerChannel().Legacy, "stream message on another channel")
		if o := r.GetOpen(); o != nil {
			vm.Assert(u.stream == "" && o.NodeId == "cli", "stream opened twice or for another client")
			u.stream, u.request, u.expiry = r.StreamId, r.RequestId, r.Expiry
			if u.pubErr {
				return errors.New("bus down")
			}
			for n := 0; n < u.offers; n++ {
				vclaim(u.b, r.RequestId, []string{"s0", "s1"}[n])
			}
			if u.badOff {
				vclaim(u.b, "other", "s0")
			}
			if !u.claim && !u.noAck {
				u.later()
			}
		} else if r.GetClose() != nil {
			vm.Assert(r.StreamId == u.stream, "another stream closed")
			u.closes++
		}
	case *internal.ClaimResponse:
		if u.failSel {
			return errors.New("bus down")
		}
		vm.Assert(u.claim && !u.selected && r.RequestId == u.request, "selection for another call")
		vm.Assert(u.offers > 0 && (r.ServerId == "s0" || u.offers > 1 && r.ServerId == "s1"), "a server that made no offer was selected")
		vm.Assert(ch.Legacy == i.GetClaimResponseChannel().Legacy, "the selection goes to another channel")
		u.selected = true

		if !u.noAck {
			u.later()
		}
	}
	return nil
}

func (u *vopen) run(ctx context.Context) {
	u.b.OnPub = u.publish
	u.start = vm.Clock()
	u.st, u.err = OpenStream[*vmsg, *vmsg](ctx, u.c, "M", nil)
	u.took = vm.Clock() - u.start
	u.check()
	u.done = true
}

func (u *vopen) check() {
	vm.Assert(len(u.c.claimRequests) == 0, "claim bookkeeping left behind")
	if u.err == nil {
		vm.Reach("opened")
		vm.Assert(u.st != nil && u.acked, "the stream opens without acknowledgement")
		vm.Assert(!u.claim || u.selected, "the stream opens without telling the selected server")
		return
	}
	vm.Assert(u.st == nil, "a stream is returned with an error")
	vm.Assert(len(u.c.streamChannels) == 0, "stream bookkeeping left behind")
	vm.Assert(u.closes == 1, "the server is not told that the stream closed")
	var e psrpc.Error
	vm.Assert(errors.As(u.err, &e), "error without code")
	switch e.Code() {
	case psrpc.Canceled:
		vm.Reach("cancelled")
		vm.Assert(u.cancelled, "reported as cancelled without being cancelled")
	case psrpc.DeadlineExceeded:
		vm.Reach("timed out")
		vm.Assert(u.took >= int64(time.Second), "timed out before the timeout")
	case psrpc.Internal:
		vm.Reach("not published")
		vm.Assert(u.pubErr || u.failSel, "publish error invented")
	default:
		vm.Reach("not selected")
		vm.Assert(e.Code() == psrpc.Unavailable && u.claim && !u.selected, "selection error invented")
	}
}

func vopenOf(k int, claim bool) *vopen {
	b := bus.NewVBus()
	b.Cap = 6
	u := &vopen{b: b, claim: claim}
	switch k {
	case 0:
		u.offers = 1
	case 1:
		u.noAck, u.offers = true, 2
	case 2:
		u.badAck, u.offers = 1, 2
	case 3:
		u.badAck, u.offers = 2, 1
	case 4:
		u.pubErr = true
	case 5:
		u.badOff = true
	case 6:
		u.offers, u.failSel = 1, true
	}
	if !claim {
		u.offers = 0
	}
	u.c = vclient(b, claim, withStreams())
	return u
}

// VerifOpen: opening a stream that nobody has to claim (cases 0-4) or that requires claiming (5-11).
// The case chooses what the server does - offer, acknowledge at an arbitrary time, not at all or for
// another stream or request, failing publishes -, the caller may cancel at any time.
//
//verif:harness P23 cases=12 rounds=9 rounds.thorough=12 event=1 clock=-1
func VerifOpen() {
	k := vm.Case()
	claim := k >= 5
	if claim {
		k -= 5
	}
	u := vopenOf(k, claim)
	u.at = int64(vm.Int("ackAt", 0, 3)) * 400 * vms
	ctx, cancel := context.WithCancel(context.Background())
	go u.run(ctx)
	cancelAt := int64(0)
	if vm.Bool("cancel") {
		cancelAt = int64(vm.Int("cancelAt", 0, 3))*500*vms + 50*vms
		go func() {
			time.Sleep(time.Duration(cancelAt))
			u.cancelled = true
			cancel()
		}()
	}
	vm.Final(func() {
		vm.Assert(u.done, "opening never returns")
		vm.Assert(u.took <= int64(time.Second)+vm.Slack(), "opening outlives its timeout")
		if u.cancelled && u.err == nil {
			vm.Reach("closed")
			vm.Assert(len(u.c.streamChannels) == 0 && u.closes == 1, "a stream whose context ended is not closed")
		}
	})
}

// VerifOpenRaces: the timeout and the cancellation at any point of opening and being acknowledged.
//
//verif:harness P23 rounds=6 cases=5 coop=1 timers=4
func VerifOpenRaces() {
	u := vopenOf([]int{0, 1, 0, 1, 6}[vm.Case()], vm.Case() >= 2)
	ctx, cancel := context.WithCancel(context.Background())
	go u.run(ctx)
	if vm.Bool("cancel") {
		go func() {
			u.cancelled = true
			cancel()
		}()
	}
	vm.Final(func() { vm.Assert(u.done, "opening never returns") })
}

// VerifOpenRouted: messages of the opened stream come out of it in order, those of other streams do
// not, whatever the order in which they arrive.
//
//verif:harness P23 cases=4 rounds=7 event=1 clock=-1
func VerifOpenRouted() {
	u := vopenOf(0, false)
	own := [2]bool{vm.Case()%2 == 0, vm.Case()/2 == 0}
	u.b.OnPub = nil
	var got []string
	go func() {
		u.run(context.Background())
		if u.err != nil {
			return
		}
		for i, o := range own {
			id := u.stream
			if !o {
				id = "other"
			}
			vstreamMsg(u.b, &internal.Stream{StreamId: id, RequestId: "m", Expiry: u.expiry, Body: &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: vpayload(vvals[i])}}})
		}
		for m := range u.st.Channel() {
			got = append(got, m.ServerId)
		}
	}()
	vm.Final(func() {
		vm.Assert(u.done && u.err == nil, "stream does not open")
		n := 0
		for i, o := range own {
			if o {
				vm.Assert(len(got) > n && got[n] == vvals[i], "a message of the stream was lost or reordered")
				n++
			}
		}
		vm.Assert(len(got) == n, "a message of another stream was delivered")
		vm.Reach("routed")
	})
}
