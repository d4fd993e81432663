package server

import (
	"context"
	"errors"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/metadata"
)

// vreq is a request and what its handler does.
type vreq struct {
	id, cli string
	value   string
	kind    int // 0 valid, 1 undecodable payload, 2 expired on arrival, 3 valid without payload
	outcome int // 0 result, 1 psrpc error, 2 other error, 3 nil result
	exp     int64
	runs    int
	answers int
}

type vanswers struct {
	b    *bus.VBus
	s    *RPCServer
	reqs [2]vreq
}

func (v *vanswers) find(id string) *vreq {
	for i := range v.reqs {
		if v.reqs[i].id == id {
			return &v.reqs[i]
		}
	}
	vm.Assert(false, "a response to a request nobody sent")
	return &v.reqs[0]
}

// answer checks what the server publishes.
func (v *vanswers) answer(ch bus.Channel, m proto.Message) error {
	r, ok := m.(*internal.Response)
	vm.Assert(ok, "something other than a response is published")
	q := v.find(r.RequestId)
	vm.Assert(q.answers == 0, "a request is answered twice")
	q.answers++
	vm.Assert(ch.Legacy == info.GetResponseChannel("S", q.cli).Legacy, "the response goes to another client")
	vm.Assert(r.ServerId == "srv", "the response does not name the server")
	if q.kind == 1 {
		vm.Reach("malformed")
		vm.Assert(r.Code == string(psrpc.MalformedRequest) && len(r.RawResponse) == 0, "an undecodable request is not answered with a malformed-request error")
		return nil
	}
	vm.Assert(q.runs == 1, "a response without the handler having run")
	switch q.outcome {
	case 0:
		vm.Reach("result")
		vm.Assert(r.Code == "" && r.Error == "", "a result is answered with an error")
		res, err := bus.DeserializePayload[*vmsg](r.RawResponse)
		vm.Assert(err == nil && res.ServerId == q.value && res.RequestId == q.id, "the response carries another result")
	case 1:
		vm.Reach("error")
		vm.Assert(r.Code == string(psrpc.NotFound) && r.Error == "e"+q.id && len(r.RawResponse) == 0, "the response carries another error")
	case 2:
		vm.Assert(r.Code == string(psrpc.Unknown) && r.Error == "o"+q.id && len(r.RawResponse) == 0, "the response carries another error")
	}
	return nil
}

func (v *vanswers) handle(ctx context.Context, m *vmsg) (*vmsg, error) {
	h := metadata.IncomingHeader(ctx)
	q := &v.reqs[0]
	if h.RemoteID == v.reqs[1].cli && (v.reqs[0].cli != v.reqs[1].cli || h.Metadata["id"] == v.reqs[1].id) {
		q = &v.reqs[1]
	}
	q.runs++
	vm.Assert(q.runs == 1, "the handler runs twice for a request")
	vm.Assert(h.RemoteID == q.cli && h.Metadata["id"] == q.id && len(h.Metadata) == 1, "the handler sees another sender or other metadata")
	vm.Assert(h.SentAt.UnixNano() == q.exp-int64(time.Hour), "the handler sees another time of sending")
	vm.Assert(q.kind != 1 && q.kind != 2, "the handler runs for an undecodable or expired request")
	if q.kind == 3 {
		vm.Assert(m != nil && m.ServerId == "", "the handler sees another payload")
	} else {
		vm.Assert(m.ServerId == q.value, "the handler sees another payload")
	}
	d, ok := ctx.Deadline()
	vm.Assert(ok && d.UnixNano() == q.exp, "the handler's context does not expire with the request")
	vm.Yield()
	switch q.outcome {
	case 1:
		return &vmsg{ServerId: "x"}, psrpc.NewErrorf(psrpc.NotFound, "%s", "e"+q.id)
	case 2:
		return nil, errors.New("o" + q.id)
	}
	return &vmsg{ServerId: q.value, RequestId: q.id}, nil
}

func vnewanswers(queue bool) *vanswers {
	sd := &info.ServiceDefinition{Name: "S", ID: "srv"}
	sd.RegisterMethod("M", false, false, false, queue)
	v := &vanswers{b: bus.NewVBus()}
	v.b.Mute = true
	v.b.OnPub = v.answer
	v.s = NewRPCServer(sd, v.b)
	v.reqs = [2]vreq{{id: "r0", cli: "c0", value: "v0"}, {id: "r1", cli: "c1", value: "v1"}}
	vm.Assert(RegisterHandler[*vmsg, *vmsg](v.s, "M", nil, v.handle, nil) == nil, "registration")
	return v
}

func (v *vanswers) send(q *vreq) {
	q.exp = time.Now().Add(time.Hour).UnixNano()
	if q.kind == 2 {
		q.exp = time.Now().Add(-time.Millisecond).UnixNano()
	}
	var raw []byte
	var err error
	switch q.kind {
	case 0, 2:
		raw, err = bus.SerializePayload(&vmsg{ServerId: q.value})
		vm.Assert(err == nil, "serialize")
	case 1:
		raw = []byte{0xFF}
	}
	v.b.Inject(v.s.GetInfo("M", nil).GetRPCChannel().Legacy, bus.Encode(&internal.Request{
		RequestId: q.id, ClientId: q.cli, SentAt: q.exp - int64(time.Hour), Expiry: q.exp, RawRequest: raw,
		Metadata: map[string]string{"id": q.id},
	}))
}

func (v *vanswers) check() {
	for i := range v.reqs {
		q := &v.reqs[i]
		if q.exp == 0 {
			continue
		}
		switch q.kind {
		case 1:
			vm.Assert(q.answers == 1 && q.runs == 0, "an undecodable request is not answered, or handled")
		case 2:
			vm.Reach("expired")
			vm.Assert(q.answers == 0 && q.runs == 0, "a request that has expired is handled or answered")
		default:
			vm.Assert(q.runs == 1, "a request is not handled")
			vm.Assert(q.answers == 1, "a handled request is not answered")
		}
	}
}

// VerifAnswers: two requests - valid, undecodable, expired, empty, one case per combination; of the same
// client in the even cases -, the handler giving a result or an error for each, in every interleaving
// within the bound. The last four cases use a queue method.
//
//verif:harness P04 rounds=2 rounds.thorough=3 cases=8 prune=1
func VerifAnswers() {
	vm.AtomicBegin()
	v := vnewanswers(vm.Case() >= 4)
	if vm.Case()%2 == 0 {
		v.reqs[1].cli = "c0"
	}
	kinds := [8][2]int{{0, 0}, {0, 0}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {3, 0}, {1, 1}}[vm.Case()]
	for i := range v.reqs {
		v.reqs[i].kind = kinds[i]
		v.reqs[i].outcome = vm.Choose("outcome", 3, i)
		v.send(&v.reqs[i])
	}
	vm.AtomicEnd()
	vm.Final(v.check)
}
