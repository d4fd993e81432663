package client

import (
	"context"
	"errors"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/info"
)

type vmsg = internal.ClaimResponse

func vdef(claim bool) *info.ServiceDefinition {
	sd := &info.ServiceDefinition{Name: "S", ID: "cli"}
	sd.RegisterMethod("M", false, false, claim, false)
	sd.RegisterMethod("N", false, true, false, false)
	return sd
}

func vclient(b *bus.VBus, claim bool, opts ...psrpc.ClientOption) *RPCClient {
	c, err := NewRPCClient(vdef(claim), b, append([]psrpc.ClientOption{psrpc.WithClientTimeout(time.Second)}, opts...)...)
	vm.Assert(err == nil, "client")
	return c
}

func vpayload(s string) []byte {
	p, err := bus.SerializePayload(&vmsg{ServerId: s})
	vm.Assert(err == nil, "serialize")
	return p
}

func vreply(b *bus.VBus, r *internal.Response) {
	b.Inject(info.GetResponseChannel("S", "cli").Legacy, bus.Encode(r))
}

func vclaim(b *bus.VBus, id, server string) {
	b.Inject(info.GetClaimRequestChannel("S", "cli").Legacy, bus.Encode(&internal.ClaimRequest{RequestId: id, ServerId: server, Affinity: 1}))
}

// vunary is the oracle of a unary call: which answers its peers gave, and what it may return.
type vunary struct {
	kind      [2]int // 0 none, 1 payload, 2 error, 3 undecodable, 4 another call's
	pubErr    bool   // publishing the request fails
	noServer  bool   // selection may end without a server
	cancelled bool
	start     int64
	done      bool
}

var vvals = [2]string{"v0", "v1"}

func (u *vunary) respond(b *bus.VBus, id string) {
	for i, k := range u.kind {
		switch k {
		case 1:
			vreply(b, &internal.Response{RequestId: id, RawResponse: vpayload(vvals[i])})
		case 2:
			vreply(b, &internal.Response{RequestId: id, Error: vvals[i], Code: string(psrpc.NotFound)})
		case 3:
			vreply(b, &internal.Response{RequestId: id, RawResponse: []byte{0xFF}})
		case 4:
			vreply(b, &internal.Response{RequestId: "other", RawResponse: vpayload(vvals[i])})
		}
	}
}

// check decides the result of the call.
func (u *vunary) check(res *vmsg, err error) {
	if err == nil {
		vm.Reach("answered")
		vm.Assert(res != nil, "success without response")
		for i := range vvals {
			if u.kind[i] == 1 && res.ServerId == vvals[i] {
				return
			}
		}
		vm.Assert(false, "the response is not one addressed to the call")
		return
	}
	var e psrpc.Error
	vm.Assert(errors.As(err, &e), "error without code")
	switch e.Code() {
	case psrpc.Canceled:
		vm.Reach("cancelled")
		vm.Assert(err == error(psrpc.ErrRequestCanceled) && u.cancelled, "reported as cancelled without being cancelled")
	case psrpc.DeadlineExceeded:
		vm.Reach("timed out")
		vm.Assert(err == error(psrpc.ErrRequestTimedOut) && vm.Clock()-u.start >= int64(time.Second), "timed out before the timeout")
	case psrpc.Internal:
		vm.Reach("not published")
		vm.Assert(u.pubErr, "publish error invented")
	case psrpc.Unavailable:
		vm.Reach("not selected")
		vm.Assert(u.noServer, "selection error invented")
	case psrpc.NotFound:
		vm.Reach("failed")
		for i := range vvals {
			if u.kind[i] == 2 && e.Error() == vvals[i] {
				return
			}
		}
		vm.Assert(false, "the error is not one addressed to the call")
	default:
		vm.Reach("malformed")
		vm.Assert(e.Code() == psrpc.MalformedResponse, "error invented")
		vm.Assert(u.kind[0] == 3 || u.kind[1] == 3, "undecodable response invented")
	}
}

func (u *vunary) released(c *RPCClient) {
	vm.Assert(len(c.responseChannels) == 0 && len(c.claimRequests) == 0, "bookkeeping of a finished call left behind")
}

func (u *vunary) run(b *bus.VBus, c *RPCClient) {
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		u.start = vm.Clock()
		res, err := RequestSingle[*vmsg](ctx, c, "M", nil, &vmsg{})
		u.check(res, err)
		u.released(c)
		u.done = true
	}()
	if vm.Bool("cancel") {
		go func() {
			u.cancelled = true
			cancel()
		}()
	}
	vm.Final(func() { vm.Assert(u.done, "the call never returns") })
}

// VerifUnary: a unary call without claim. Its peers answer with up to two messages - payload, error,
// undecodable, for another call (one case per pair; the last case fails to publish the request) -,
// the caller may cancel and the timeout may pass at any point.
//
//verif:harness P01 cases=21 rounds=2 rounds.thorough=3
func VerifUnary() {
	b := bus.NewVBus()
	c := vclient(b, false)
	u := &vunary{kind: [2]int{vm.Case()%4 + 1, vm.Case() / 4}}
	if vm.Case() == 20 {
		u.pubErr = true
		u.kind = [2]int{}
	}
	b.OnPub = func(_ bus.Channel, m proto.Message) error {
		if r, ok := m.(*internal.Request); ok {
			if u.pubErr {
				return errors.New("bus down")
			}
			u.respond(b, r.RequestId)
		}
		return nil
	}
	u.run(b, c)
}

// VerifClaimed: a unary call of a method that requires claiming. The case chooses what its peers do:
// offers (for this call, duplicated, for another call, none), and after the choice an answer, an
// error, a failing publish; or an error instead of an offer.
//
//verif:harness P01 cases=6 rounds=3 coop=1 timers=2
func VerifClaimed() {
	b := bus.NewVBus()
	c := vclient(b, true)
	u := &vunary{noServer: true}
	offers := []string{}
	failClaim := false
	k := vm.Case()
	switch k {
	case 0:
		offers, u.kind[0] = []string{"s0"}, 1
	case 1:
		offers, u.kind[0] = []string{"s0", "s1"}, 2
	case 2:
		offers, failClaim, u.pubErr = []string{"s0"}, true, true
	case 3:
		u.kind[0] = 2 // the request was malformed
	case 4:
		u.kind[0] = 4
	case 5:
		offers, u.kind = []string{"s0", "s0"}, [2]int{4, 3}
	}
	chosen, sent := 0, 0
	b.OnPub = func(ch bus.Channel, m proto.Message) error {
		switch r := m.(type) {
		case *internal.Request:
			sent++
			for _, s := range offers {
				vclaim(b, r.RequestId, s)
			}
			if k == 4 {
				vclaim(b, "other", "s1")
			}
			if len(offers) == 0 {
				u.respond(b, r.RequestId)
			}
		case *internal.ClaimResponse:
			if failClaim {
				return errors.New("bus down")
			}
			chosen++
			vm.Assert(sent == 1 && chosen == 1, "more than one server chosen")
			vm.Assert(r.ServerId == "s0" || k == 1 && r.ServerId == "s1", "a server that made no offer for this call was chosen")
			vm.Assert(ch.Legacy == c.GetInfo("M", nil).GetClaimResponseChannel().Legacy, "the choice goes to another channel")
			u.respond(b, r.RequestId)
		}
		return nil
	}
	u.run(b, c)
}

// VerifTimes: offers and the answer come at arbitrary times, the caller may cancel at any time. The
// call ends by its timeout or cancellation, and succeeds when everything came before both.
//
//verif:harness P01 cases=3 rounds=9 rounds.thorough=12 event=1 clock=-1
func VerifTimes() {
	b := bus.NewVBus()
	claim := vm.Case() > 0
	c := vclient(b, claim)
	u := &vunary{noServer: claim, kind: [2]int{1, 0}}
	offerAt := int64(vm.Int("offerAt", 0, 3)) * 400 * vms
	answerAt := int64(vm.Int("answerAt", 0, 3)) * 400 * vms
	if !claim {
		offerAt = 0
	}
	answer := func(id string) {
		time.Sleep(time.Duration(answerAt))
		u.respond(b, id)
	}
	b.OnPub = func(_ bus.Channel, m proto.Message) error {
		switch r := m.(type) {
		case *internal.Request:
			id := r.RequestId
			switch vm.Case() {
			case 0:
				go answer(id)
			case 2:
				go func() {
					time.Sleep(time.Duration(offerAt))
					vclaim(b, id, "s0")
				}()
			default:
				go func() {
					time.Sleep(time.Duration(offerAt))
					vclaim(b, id, "s1")
					vclaim(b, id, "s0")
				}()
			}
		case *internal.ClaimResponse:
			go answer(r.RequestId)
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	end := int64(time.Second)
	var took int64
	var res *vmsg
	go func() {
		var err error
		u.start = vm.Clock()
		res, err = RequestSingle[*vmsg](ctx, c, "M", nil, &vmsg{})
		took = vm.Clock() - u.start
		u.check(res, err)
		u.released(c)
		u.done = true
	}()
	if vm.Bool("cancel") {
		at := int64(vm.Int("cancelAt", 0, 3))*500*vms + 50*vms
		if at < end {
			end = at
		}
		go func() {
			time.Sleep(time.Duration(at))
			u.cancelled = true
			cancel()
		}()
	}
	vm.Final(func() {
		vm.Assert(u.done, "the call never returns")
		vm.Assert(took <= end+vm.Slack(), "the call outlives its timeout or its caller's cancellation")
		if offerAt+answerAt+vm.Slack() < end {
			vm.Reach("in time")
			vm.Assert(res != nil, "an answer that came in time is lost")
		}
	})
}
