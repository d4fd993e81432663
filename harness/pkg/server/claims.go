package server

import (
	"context"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/metadata"
)

const vms = int64(time.Millisecond)

// vclaims observes the claims of one method of a server, unary or stream.
type vclaims struct {
	b        *bus.VBus
	s        *RPCServer
	stream   bool
	aff      float32 // what the affinity function answers
	hasAff   bool
	ids      [2]string
	exp      [2]int64
	offers   [2]int
	first    [2]string // server named by the first claim response after the offer
	at       [2]int64  // when it came
	runs     [2]int
	affinity func(remote string) float32
	offered  func()
}

func (v *vclaims) index(id string) int {
	for i := range v.ids {
		if v.ids[i] == id {
			return i
		}
	}
	vm.Assert(false, "a message or handler for a request nobody sent")
	return 0
}

func vnewclaims(stream, hasAff bool) *vclaims {
	sd := &info.ServiceDefinition{Name: "S", ID: "srv"}
	sd.RegisterMethod("M", hasAff, false, true, false)
	v := &vclaims{b: bus.NewVBus(), stream: stream, hasAff: hasAff, ids: [2]string{"r0", "r1"}}
	v.b.Cap = 6
	v.b.Mute = true
	v.s = NewRPCServer(sd, v.b)
	v.b.OnPub = func(ch bus.Channel, m proto.Message) error {
		if c, ok := m.(*internal.ClaimRequest); ok {
			vm.AtomicBegin()
			v.offer(ch, c)
			if v.offered != nil {
				v.offered()
			}
			vm.AtomicEnd()
		}
		return nil
	}
	v.affinity = func(string) float32 { return v.aff }
	var err error
	if stream {
		var af StreamAffinityFunc
		if hasAff {
			af = func(ctx context.Context) float32 { return v.affinity(metadata.IncomingHeader(ctx).RemoteID) }
		}
		err = RegisterStreamHandler[*vmsg, *vmsg](v.s, "M", nil, func(ss psrpc.ServerStream[*vmsg, *vmsg]) error {
			v.ran(metadata.IncomingHeader(ss.Context()).RemoteID)
			return nil
		}, af)
	} else {
		var af AffinityFunc[*vmsg]
		if hasAff {
			af = func(ctx context.Context, _ *vmsg) float32 { return v.affinity(metadata.IncomingHeader(ctx).RemoteID) }
		}
		err = RegisterHandler[*vmsg, *vmsg](v.s, "M", nil, func(ctx context.Context, r *vmsg) (*vmsg, error) {
			v.ran(metadata.IncomingHeader(ctx).RemoteID)
			return r, nil
		}, af)
	}
	vm.Assert(err == nil, "registration")
	return v
}

// offer checks an offer of the server.
func (v *vclaims) offer(ch bus.Channel, c *internal.ClaimRequest) {
	i := v.index(c.RequestId)
	vm.Assert(v.offers[i] == 0, "a request is offered for twice")
	v.offers[i]++
	want := float32(1)
	if v.hasAff {
		want = v.aff
	}
	vm.Assert(!(want < 0), "a server with negative affinity offers to handle a request")
	vm.Assert(c.ServerId == "srv", "the offer does not name the server")
	vm.Assert(c.Affinity == want || c.Affinity != c.Affinity && want != want, "the offer carries another affinity")
	vm.Assert(ch.Legacy == info.GetClaimRequestChannel("S", "cli"+v.ids[i]).Legacy, "the offer goes to another client")
}

// ran is called by the handler with the sender's id, from which the request follows.
func (v *vclaims) ran(remote string) {
	i := v.index(remote[len("cli"):])
	vm.Assert(v.runs[i] == 0, "the handler runs twice for a request")
	v.runs[i]++
	vm.Assert(v.offers[i] == 1, "the handler runs without an offer")
	vm.Assert(v.first[i] == "srv", "the handler runs although the server was not chosen")
	vm.Assert(v.at[i] <= v.exp[i]+vm.Slack(), "the handler runs on a claim that came after the request had expired")
	vm.Reach("chosen")
}

func (v *vclaims) request(i int, expiry time.Duration) {
	v.exp[i] = time.Now().Add(expiry).UnixNano()
	in := v.s.GetInfo("M", nil)
	if v.stream {
		v.b.Inject(in.GetStreamServerChannel().Legacy, bus.Encode(&internal.Stream{
			StreamId: "st" + v.ids[i], RequestId: v.ids[i], Expiry: v.exp[i],
			Body: &internal.Stream_Open{Open: &internal.StreamOpen{NodeId: "cli" + v.ids[i]}},
		}))
		return
	}
	p, err := bus.SerializePayload(&vmsg{ServerId: v.ids[i]})
	vm.Assert(err == nil, "serialize")
	v.b.Inject(in.GetRPCChannel().Legacy, bus.Encode(&internal.Request{
		RequestId: v.ids[i], ClientId: "cli" + v.ids[i], Expiry: v.exp[i], RawRequest: p,
	}))
}

// choose announces the client's choice for a request.
func (v *vclaims) choose(id, server string) {
	for i := range v.ids {
		if v.ids[i] == id && v.offers[i] > 0 && v.first[i] == "" {
			v.first[i] = server
			v.at[i] = vm.Clock()
		}
	}
	v.b.Inject(v.s.GetInfo("M", nil).GetClaimResponseChannel().Legacy, bus.Encode(&internal.ClaimResponse{RequestId: id, ServerId: server}))
}

// released: the bookkeeping of the decided claims is gone.
func (v *vclaims) released() {
	for _, h := range v.s.handlers {
		switch h := h.(type) {
		case *rpcHandlerImpl[*vmsg, *vmsg]:
			vm.Assert(len(h.claimSub.Channel()) == 0, "the server no longer takes in claim responses")
			vm.Assert(len(h.claims) == 0, "the bookkeeping of a decided claim is left behind")
		case *streamHandler[*vmsg, *vmsg]:
			vm.Assert(len(h.claimSub.Channel()) == 0, "the server no longer takes in claim responses")
			vm.Assert(len(h.claims) == 0, "the bookkeeping of a decided claim is left behind")
		default:
			vm.Assert(false, "handler")
		}
	}
}

// VerifClaims: two requests for one method, whose clients announce up to three choices, for either
// request or another one, naming this server, another or the same one twice, at any times before or
// when or after the requests expire. Case bit 0: stream, bit 1: affinity function.
//
//verif:harness P03 event=1 cases=4 rounds=12 clock=-1
func VerifClaims() {
	var v *vclaims
	for k := 0; k < 3; k++ {
		// at the very moment the first request expires, or before or after
		at := [4]int64{100, 1000, 1300, 1900}[vm.Choose("at", 4, k)] * vms
		id := [3]string{"r0", "r1", "r2"}[vm.Choose("request", 3, k)]
		server := [4]string{"srv", "other", "srv2", "sr"}[vm.Choose("server", 4, k)]
		go func() {
			time.Sleep(time.Duration(at))
			v.choose(id, server)
		}()
	}
	v = vnewclaims(vm.Case()&1 != 0, vm.Case()&2 != 0)
	v.aff = vm.F32("affinity")
	v.request(0, time.Second)
	v.request(1, 2*time.Second)
	vm.Final(func() {
		for i := range v.ids {
			vm.Assert(v.offers[i] == 1 || v.hasAff && v.aff < 0, "a request is not offered for")
			if v.first[i] == "srv" && v.at[i]+vm.Slack() < v.exp[i] {
				vm.Reach("in time")
				vm.Assert(v.runs[i] == 1, "the handler of a chosen server does not run")
			}
			if v.offers[i] == 0 || v.first[i] != "srv" {
				vm.Reach("not chosen")
				vm.Assert(v.runs[i] == 0, "the handler of a server that was not chosen runs")
			}
		}
		v.released()
	})
}

// VerifClaimRaces: the client's choice is announced three times, racing with the request's expiry;
// the server takes in all of it (case 0 unary, 1 stream).
//
//verif:harness P03 rounds=2 rounds.thorough=3 cases=2 prune=1
func VerifClaimRaces() {
	vm.AtomicBegin()
	v := vnewclaims(vm.Case() == 1, false)
	server := [2]string{"srv", "other"}[vm.Choose("server", 2)]
	v.offered = func() {
		for k := 0; k < 3; k++ {
			v.choose("r0", server)
		}
	}
	v.request(0, time.Hour)
	vm.AtomicEnd()
	vm.Final(func() {
		if v.runs[0] == 0 {
			vm.Reach("expired")
		}
		vm.Assert(v.offers[0] == 1, "a request is not offered for")
		vm.Assert(v.runs[0] == 1 || server == "other" || vm.Clock() >= v.exp[0], "the handler of a chosen server does not run")
		v.released()
	})
}
