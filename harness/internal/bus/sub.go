package bus

import (
	"context"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/livekit/psrpc/internal"
	vm "github.com/livekit/psrpc/internal/zzvm"
)

// vraw is an arbitrary raw message: a request, a message of another type, an envelope of an unknown
// type, an envelope with a malformed body, or arbitrary bytes.
func vraw(i, kind int) (buf []byte, id string) {
	switch kind {
	case 0:
		id = vm.StrN("id", 1, i)
		buf, _ = serialize(&internal.Request{RequestId: id, ClientId: "c", Multi: vm.Bool("multi", i)}, "")
	case 1:
		buf, _ = serialize(&internal.Response{RequestId: "r", Error: "e"}, "x")
	case 2:
		buf, _ = proto.Marshal(&anypb.Any{TypeUrl: "type.googleapis.com/no.such.Type", Value: []byte(vm.StrN("value", 1, i))})
	case 3:
		buf, _ = proto.Marshal(&anypb.Any{TypeUrl: "type.googleapis.com/internal.Request", Value: []byte(vm.StrN("value", 2, i))})
	case 4:
		buf = []byte(vm.Str("raw", 2, i))
	case 5:
		buf, _ = proto.Marshal(&anypb.Any{})
	}
	return
}

// Foreign: three messages of any kind (one case per pair of kinds of the first two), then a good one,
// on a subscription with room for two messages that is read as they arrive, then closed.
//
//verif:harness P12 cases=36 rounds=3
func Foreign() {
	b := NewVBus()
	b.Cap = 4
	s, err := Subscribe[*internal.Request](context.Background(), b, vch, 2)
	vm.Assert(err == nil, "subscribe failed")
	var want []string
	for i := 0; i < 3; i++ {
		k := 0
		if i == 0 {
			k = vm.Case() % 6
		} else if i == 1 {
			k = vm.Case() / 6
		}
		buf, id := vraw(i, k)
		if k == 0 {
			want = append(want, id)
		}
		b.Inject(vch.Legacy, buf)
	}
	var got []string
	ended := false
	go func() {
		for m := range s.Channel() {
			vm.Assert(m != nil && m.ClientId == "c", "message damaged")
			got = append(got, m.RequestId)
		}
		ended = true
	}()
	vm.Yield()
	closed := vm.Bool("close")
	if closed {
		vm.Assert(s.Close() == nil, "close failed")
	}
	vm.Final(func() {
		vm.Assert(ended == closed, "channel not closed exactly when the subscription ends")
		vm.Assert(len(got) == len(want), "well-formed message lost, or a foreign one delivered")
		for i := range got {
			vm.Assert(got[i] == want[i], "messages reordered or damaged")
		}
	})
}

// Envelope: what a publisher writes decodes to an equal message and the same local channel.
//
//verif:harness P12 coop=1 cases=5
func Envelope() {
	ch := vm.StrN("channel", vm.Case()%3)
	var m proto.Message
	switch vm.Case() {
	case 0:
		m = &internal.Request{RequestId: vm.Str("id", 2), ClientId: vm.Str("client", 1), SentAt: vm.I64("sent"), Expiry: vm.I64("expiry"), Multi: vm.Bool("multi"), RawRequest: []byte(vm.Str("raw", 2)), Metadata: map[string]string{vm.StrN("key", 1): vm.Str("val", 1)}}
	case 1:
		m = &internal.Response{RequestId: vm.Str("id", 2), ServerId: vm.Str("server", 1), SentAt: vm.I64("sent"), Error: vm.Str("error", 2), Code: vm.Str("code", 1), RawResponse: []byte(vm.Str("raw", 2))}
	case 2:
		a := vm.F32("affinity")
		vm.Assume(a == a)
		m = &internal.ClaimRequest{RequestId: vm.Str("id", 2), ServerId: vm.Str("server", 1), Affinity: a}
	case 3:
		m = &internal.ClaimResponse{RequestId: vm.Str("id", 2), ServerId: vm.Str("server", 1)}
	case 4:
		m = &internal.Stream{StreamId: vm.Str("id", 2), RequestId: vm.Str("req", 1), SentAt: vm.I64("sent"), Expiry: vm.I64("expiry"), Body: &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: []byte(vm.Str("raw", 2))}}}
	}
	buf, err := serialize(m, ch)
	vm.Assert(err == nil, "cannot be written")
	got, err := deserializeChannel(buf)
	vm.Assert(err == nil && got == ch, "local channel lost")
	p, err := deserialize(buf)
	vm.Assert(err == nil && proto.Equal(p, m), "decodes to another message")
}
