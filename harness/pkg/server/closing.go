package server

import (
	"context"

	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/info"
)

type vmsg = internal.ClaimResponse

// vsrv is a server with a method M under observation.
type vsrv struct {
	b         *bus.VBus
	s         *RPCServer
	started   int
	running   int
	published int
	closed    bool // a graceful close has returned
	block     chan struct{}
	begun     chan struct{}
}

func vserver(claim bool, opts ...psrpc.ServerOption) *vsrv {
	sd := &info.ServiceDefinition{Name: "S", ID: "srv"}
	sd.RegisterMethod("M", false, false, claim, !claim)
	sd.RegisterMethod("N", false, true, false, false)
	v := &vsrv{b: bus.NewVBus()}
	v.s = NewRPCServer(sd, v.b, opts...)
	v.b.OnPub = func(_ bus.Channel, m proto.Message) error {
		if _, ok := m.(*internal.Response); ok {
			vm.Assert(!v.closed, "a response is published after the close returned")
			v.published++
		}
		return nil
	}
	return v
}

func (v *vsrv) handle(_ context.Context, req *vmsg) (*vmsg, error) {
	v.started++
	v.running++
	vm.Assert(!v.closed, "a handler starts after the close returned")
	if v.block != nil {
		close(v.begun)
		<-v.block
	} else {
		vm.Yield()
	}
	v.running--
	return &vmsg{ServerId: req.ServerId}, nil
}

func (v *vsrv) register(rpc string) error {
	return RegisterHandler[*vmsg, *vmsg](v.s, rpc, nil, v.handle, nil)
}

func (v *vsrv) request(rpc, id string) {
	p, err := bus.SerializePayload(&vmsg{ServerId: id})
	vm.Assert(err == nil, "serialize")
	v.b.Inject(v.s.GetInfo(rpc, nil).GetRPCChannel().Legacy, bus.Encode(&internal.Request{
		RequestId: id, ClientId: "cli", Expiry: time.Now().Add(time.Hour).UnixNano(), RawRequest: p,
	}))
}

// graceful closes the server and checks what has to hold when that returns.
func (v *vsrv) graceful() {
	v.s.Close(false)
	v.closed = true
	vm.Reach("closed")
	vm.Assert(v.running == 0, "a handler is running when the close returns")
	vm.Assert(v.published == v.started, "a handled request was not answered when the close returned")
	vm.Assert(v.b.Open() == 0, "a subscription is open when the close returns")
}

// VerifShutdown: requests on their way to a server that is closed gracefully, by one or by two
// goroutines (cases 0, 1).
//
//verif:harness P08 rounds=2 rounds.thorough=3 cases=2
func VerifShutdown() {
	v := vserver(false)
	vm.AtomicBegin()
	vm.Assert(v.register("M") == nil, "registration")
	v.request("M", "r0")
	v.request("M", "r1")
	vm.AtomicEnd()
	closes := 0
	for i := 0; i <= vm.Case(); i++ {
		go func() {
			v.graceful()
			closes++
		}()
	}
	vm.Final(func() {
		vm.Assert(closes == 1+vm.Case(), "a close never returns")
		if v.started > 0 {
			vm.Reach("handled")
		}
		vm.Assert(v.running == 0 && v.published == v.started, "a handled request is never answered")
	})
}

// VerifForced: a forced close returns although a handler never does; a graceful close of a server whose
// handlers are done returns too, and both can be repeated.
//
//verif:harness P08 rounds=4 coop=1 cases=2
func VerifForced() {
	v := vserver(false)
	v.block, v.begun = make(chan struct{}), make(chan struct{})
	vm.Assert(v.register("M") == nil, "registration")
	v.request("M", "r0")
	forced, graceful := false, false
	go func() {
		<-v.begun
		v.s.Close(true)
		vm.Reach("forced")
		vm.Assert(v.b.Open() == 0, "a subscription is open when the close returns")
		forced = true
		if vm.Case() == 1 {
			v.s.Close(true)
			close(v.block)
			v.graceful2()
			graceful = true
		}
	}()
	vm.Final(func() {
		vm.Assert(forced, "a forced close waits for a handler")
		vm.Assert(graceful || vm.Case() == 0, "closing again never returns")
	})
}

// graceful2 is a graceful close after a forced one, which has let the running handlers go.
func (v *vsrv) graceful2() {
	v.s.Close(false)
	vm.Reach("closed again")
	vm.Assert(v.b.Open() == 0, "a subscription is open when the close returns")
}

// VerifRegisterClose: registrations (unary, stream; one case each) racing with a graceful close (twice in
// cases 2, 3) fail with 'server is closed' or are undone by it.
//
//verif:harness P08 rounds=2 rounds.thorough=3 cases=4
func VerifRegisterClose() {
	v := vserver(false)
	closes, reg := 0, false
	go func() {
		var err error
		if vm.Case()%2 == 0 {
			err = v.register("M")
		} else {
			err = RegisterStreamHandler[*vmsg, *vmsg](v.s, "M", nil, func(psrpc.ServerStream[*vmsg, *vmsg]) error { return nil }, nil)
		}
		vm.Assert(err == nil || err == error(psrpc.ErrServerClosed), "a registration fails with another error than 'server is closed'")
		vm.Assert(err != nil || !v.closed || v.b.Open() == 0, "a registration succeeds after the close returned")
		reg = true
	}()
	for i := 0; i <= vm.Case()/2; i++ {
		go func() {
			v.s.Close(false)
			v.closed = true
			vm.Reach("closed")
			vm.Assert(v.b.Open() == 0, "a subscription is open when the close returns")
			closes++
		}()
	}
	vm.Final(func() {
		vm.Assert(reg && closes == 1+vm.Case()/2, "a close or registration never returns")
		vm.Assert(v.b.Open() == 0, "a closed server leaves a subscription open")
		vm.Assert(len(v.s.handlers) == 0, "a closed server keeps handlers")
	})
}

// VerifStreamShutdown: a stream being opened while the server is closed, by force in case 1. An accepted
// stream is ended, none is accepted after the close.
//
//verif:harness P08 rounds=3 cases=2 prune=1
func VerifStreamShutdown() {
	vm.AtomicBegin()
	v := vserver(false)
	v.b.Mute = true
	acked, ended, running := 0, 0, 0
	v.b.OnPub = func(_ bus.Channel, m proto.Message) error {
		if s, ok := m.(*internal.Stream); ok {
			switch s.Body.(type) {
			case *internal.Stream_Ack:
				acked++
			case *internal.Stream_Close:
				ended++
			}
		}
		return nil
	}
	err := RegisterStreamHandler[*vmsg, *vmsg](v.s, "M", nil, func(ss psrpc.ServerStream[*vmsg, *vmsg]) error {
		running++
		vm.Assert(!v.closed || ss.Err() != nil, "a stream is opened after the close returned")
		<-ss.Context().Done()
		running--
		return nil
	}, nil)
	vm.Assert(err == nil, "registration")
	v.b.Inject(v.s.GetInfo("M", nil).GetStreamServerChannel().Legacy, bus.Encode(&internal.Stream{
		StreamId: "a", RequestId: "r", Expiry: time.Now().Add(time.Hour).UnixNano(),
		Body: &internal.Stream_Open{Open: &internal.StreamOpen{NodeId: "cli"}},
	}))
	vm.AtomicEnd()
	done := false
	go func() {
		v.s.Close(vm.Case() == 1)
		v.closed = true
		vm.Reach("closed")
		vm.Assert(v.b.Open() == 0, "a subscription is open when the close returns")
		done = true
	}()
	vm.Final(func() {
		if acked > 0 {
			vm.Reach("accepted")
		}
		vm.Assert(done, "the close never returns")
		vm.Assert(running == 0 && ended == acked, "a stream is still open on a closed server")
	})
}

// VerifDrain: a claimed request whose client chooses, and whose handler ends, at arbitrary times, and a
// server closed gracefully at any time: the close returns as soon as the request is answered or expired.
//
//verif:harness P08 event=1 rounds=12 cases=2 clock=-1
func VerifDrain() {
	sd := &info.ServiceDefinition{Name: "S", ID: "srv"}
	sd.RegisterMethod("M", false, false, true, false)
	b := bus.NewVBus()
	b.Mute = true
	s := NewRPCServer(sd, b)
	started, running, answered := 0, 0, 0
	closed := false
	server := [2]string{"srv", "other"}[vm.Choose("server", 2)]
	chooseAt := int64(vm.Int("chooseAt", 0, 3)) * 400 * vms
	work := int64(vm.Int("work", 0, 2)) * 300 * vms
	closeAt := int64(vm.Int("closeAt", 0, 3))*400*vms + 100*vms
	b.OnPub = func(_ bus.Channel, m proto.Message) error {
		switch m := m.(type) {
		case *internal.ClaimRequest:
			go func() {
				time.Sleep(time.Duration(chooseAt))
				b.Inject(s.GetInfo("M", nil).GetClaimResponseChannel().Legacy, bus.Encode(&internal.ClaimResponse{RequestId: m.RequestId, ServerId: server}))
			}()
		case *internal.Response:
			vm.Assert(!closed, "a response is published after the close returned")
			answered++
		}
		return nil
	}
	err := RegisterHandler[*vmsg, *vmsg](s, "M", nil, func(context.Context, *vmsg) (*vmsg, error) {
		vm.Assert(!closed, "a handler starts after the close returned")
		started++
		running++
		time.Sleep(time.Duration(work))
		running--
		return &vmsg{}, nil
	}, nil)
	vm.Assert(err == nil, "registration")
	p, err := bus.SerializePayload(&vmsg{})
	vm.Assert(err == nil, "serialize")
	b.Inject(s.GetInfo("M", nil).GetRPCChannel().Legacy, bus.Encode(&internal.Request{
		RequestId: "r", ClientId: "cli", Expiry: time.Now().Add(time.Second).UnixNano(), RawRequest: p,
	}))
	var at int64
	start := vm.Clock()
	go func() {
		time.Sleep(time.Duration(closeAt))
		if vm.Case() == 1 {
			s.DeregisterHandler("M", nil)
			_, ok := s.handlers[s.GetInfo("M", nil).GetHandlerKey()]
			vm.Assert(!ok, "a deregistered handler is still there")
		} else {
			s.Close(false)
		}
		closed = vm.Case() == 0
		at = vm.Clock() - start
		vm.Reach("closed")
		if vm.Case() == 0 {
			vm.Assert(running == 0, "a handler is running when the close returns")
			vm.Assert(answered == started, "a handled request was not answered when the close returned")
		}
		vm.Assert(b.Open() == 0, "a subscription is open when the close returns")
	}()
	vm.Final(func() {
		vm.Assert(at > 0, "the close never returns")
		busy := chooseAt
		if server == "srv" && chooseAt+vm.Slack() < int64(time.Second) {
			vm.Reach("chosen")
			if vm.Case() == 0 {
				vm.Assert(started == 1 && answered == 1, "a request claimed before the close returned is not answered")
			}
			busy += work
		} else if busy > int64(time.Second) {
			busy = int64(time.Second)
		}
		if busy < closeAt || vm.Case() == 1 {
			busy = closeAt
		}
		vm.Assert(at <= busy+vm.Slack(), "the close takes longer than the requests in progress")
	})
}
