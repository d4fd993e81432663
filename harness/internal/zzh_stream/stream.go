package zzh_stream

import (
	"context"
	"errors"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/stream"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/info"
)

// end is the adapter of the stream's owner: it records what the stream sends.
type end struct {
	sent     []string // request ids of messages sent, in order
	got      int      // acknowledgements sent
	closes   int      // close messages sent
	released int
	fail     bool
	onAck    func(id string)
	onSend   func(m *internal.Stream)
}

func (e *end) Send(ctx context.Context, m *internal.Stream) error {
	vm.Yield()
	vm.Assert(m.StreamId == "s1", "message for another stream")
	switch b := m.Body.(type) {
	case *internal.Stream_Ack:
		e.got++
		if e.onAck != nil {
			e.onAck(m.RequestId)
		}
	case *internal.Stream_Message:
		if e.fail {
			return errors.New("publish failed")
		}
		e.sent = append(e.sent, m.RequestId)
		if e.onSend != nil {
			e.onSend(m)
		}
	case *internal.Stream_Close:
		_ = b
		e.closes++
	}
	return nil
}

func (e *end) Close(id string) {
	vm.Assert(id == "s1", "another stream released")
	e.released++
	vm.Assert(e.released == 1, "stream released twice")
}

type str = stream.Stream[*internal.Request, *internal.Request]

func open(ctx context.Context, e *end, size int, acks map[string]chan struct{}) str {
	i := &info.RequestInfo{RPCInfo: psrpc.RPCInfo{Service: "S", Method: "M"}}
	return stream.NewStream[*internal.Request, *internal.Request](ctx, i, "s1", time.Second, e, nil, make(chan *internal.Request, size), acks)
}

func message(id string) *internal.Stream {
	b, _ := bus.SerializePayload(&internal.Request{RequestId: id})
	return &internal.Stream{StreamId: "s1", RequestId: id, Expiry: 1 << 62, Body: &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: b}}}
}

const (
	ack       = iota // of the last message sent, or of nothing
	msg              // well-formed
	malformed        // undecodable
	closing          // remote close
)

// Race: a Send, an optional local Close, an optional end of the parent context and the handling of two
// stream messages of any kind (one case per pair) run concurrently.
//
//verif:harness P07 cases=16 rounds=2 rounds.thorough=3
func Race() {
	e := &end{}
	acks := map[string]chan struct{}{}
	ctx, cancel := context.WithCancel(context.Background())
	s := open(ctx, e, 2, acks)
	acked := map[string]bool{}
	placed := map[string]bool{}
	e.onAck = func(id string) {
		vm.Assert(len(s.Channel()) > 0, "acknowledged before it was placed in the receive channel")
		placed[id] = true
	}
	kinds := []int{vm.Case() % 4, vm.Case() / 4}
	localCause, remoteCause := errors.New("local"), psrpc.NewErrorf(psrpc.NotFound, "remote")
	var sendErr, closeErr error
	sendDone, closeDone, handled := false, false, false
	remoteWon := false
	var okIDs []string
	doClose, doCancel := vm.Bool("close"), vm.Bool("cancel")
	go func() {
		sendErr = s.Send(&internal.Request{RequestId: "out"})
		if sendErr == nil {
			vm.Reach("sent")
			vm.Assert(len(e.sent) == 1 && acked[e.sent[0]], "Send succeeds without an acknowledgement")
		}
		sendDone = true
	}()
	if doClose {
		go func() {
			closeErr = s.Close(localCause)
			closeDone = true
		}()
	}
	go func() {
		for i, k := range kinds {
			id := []string{"in0", "in1"}[i]
			switch k {
			case ack:
				r := "other"
				if len(e.sent) > 0 {
					r = e.sent[0]
				}
				acked[r] = true
				_ = s.HandleStream(&internal.Stream{StreamId: "s1", RequestId: r, Expiry: 1 << 62, Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}})
			case msg:
				if err := s.HandleStream(message(id)); err == nil {
					okIDs = append(okIDs, id)
				}
			case malformed:
				err := s.HandleStream(&internal.Stream{StreamId: "s1", RequestId: id, Expiry: 1 << 62, Body: &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: []byte{0xFF}}}})
				vm.Assert(err != nil, "malformed message accepted")
			case closing:
				err := s.HandleStream(&internal.Stream{StreamId: "s1", RequestId: id, Expiry: 1 << 62, Body: &internal.Stream_Close{Close: &internal.StreamClose{Error: "remote", Code: string(psrpc.NotFound)}}})
				if err == nil && s.Err() != nil {
					remoteWon = true
				}
			}
		}
		handled = true
	}()
	if doCancel {
		go func() { cancel() }()
	}
	vm.Final(func() {
		vm.Assert(handled, "handling a message never returns")
		vm.Assert(sendDone, "Send never returns")
		vm.Assert(!doClose || closeDone, "Close never returns")
		bad := kinds[0] == malformed || kinds[1] == malformed
		remote := kinds[0] == closing || kinds[1] == closing
		ended := doClose || bad || remote
		vm.Assert((s.Err() != nil) == ended, "stream not closed exactly when it should be")
		vm.Assert(e.released == 1 || !ended && e.released == 0, "bookkeeping not released exactly when the stream closed")
		vm.Assert(e.closes <= 1, "two close messages")
		vm.Assert(len(acks) == 0, "bookkeeping of a Send left behind")
		var in []string
		if ended {
			for m := range s.Channel() {
				in = append(in, m.RequestId)
			}
			vm.Assert(s.Context().Err() != nil, "context not ended with the stream")
			if doClose && closeErr == nil && !bad {
				vm.Assert(s.Err() == localCause && !remoteWon, "Err is not the first cause")
				vm.Assert(e.closes == 1, "peer not told")
			} else if !bad {
				vm.Assert(s.Err() != nil && s.Err().Error() == remoteCause.Error(), "Err is not the first cause")
				vm.Assert(e.closes == 0, "a remote close is echoed")
			}
		} else {
			for len(s.Channel()) > 0 {
				in = append(in, (<-s.Channel()).RequestId)
			}
		}
		vm.Assert(len(in) >= len(okIDs), "acknowledged message lost")
		for i := range in {
			vm.Assert(in[i] == "in0" && i == 0 || in[i] == "in1" && i == len(in)-1, "messages reordered or duplicated")
		}
	})
}

// Senders: two concurrent Sends, two acknowledgements each of which is for either message or
// repeated, and (in half of the cases) a failing publish or a local Close.
//
//verif:harness P07 cases=8 rounds=2 rounds.thorough=3
func Senders() {
	e := &end{fail: vm.Case()&4 != 0}
	acks := map[string]chan struct{}{}
	s := open(context.Background(), e, 1, acks)
	mine := map[string]string{} // request id by message
	acked := map[string]bool{}
	e.onSend = func(m *internal.Stream) {
		r, err := bus.DeserializePayload[*internal.Request](m.GetMessage().RawMessage)
		vm.Assert(err == nil, "message damaged")
		mine[r.RequestId] = m.RequestId
		vm.Assert(m.Expiry > m.SentAt, "message expires before it is sent")
	}
	done := 0
	for _, id := range []string{"a", "b"} {
		go func() {
			err := s.Send(&internal.Request{RequestId: id})
			if err == nil {
				vm.Reach("sent")
				vm.Assert(acked[mine[id]], "Send succeeds without its own acknowledgement")
			}
			vm.Assert(!e.fail || err != nil, "failed publish reported as success")
			done++
		}()
	}
	acking := false
	go func() {
		for i := 0; i < 2; i++ {
			k := vm.Case() >> i & 1
			if k < len(e.sent) {
				r := e.sent[k]
				acked[r] = true
				err := s.HandleStream(&internal.Stream{StreamId: "s1", RequestId: r, Expiry: 1 << 62, Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}})
				vm.Assert(err == nil, "acknowledgement refused")
			}
		}
		acking = true
	}()
	doClose, closed := vm.Bool("close"), false
	if doClose {
		go func() {
			s.Close(nil)
			closed = true
		}()
	}
	vm.Final(func() {
		vm.Assert(done == 2, "Send never returns")
		vm.Assert(acking, "handling an acknowledgement never returns")
		vm.Assert(!doClose || closed && s.Err() == psrpc.ErrStreamClosed, "Close never returns or reports another cause")
		vm.Assert(len(acks) == 0, "bookkeeping of a Send left behind")
	})
}

// Slow: a receiver with room for one message gets three, reads one in between, and is closed from
// both ends at once.
//
//verif:harness P07 rounds=2 rounds.thorough=3
func Slow() {
	e := &end{}
	s := open(context.Background(), e, 1, map[string]chan struct{}{})
	e.onAck = func(id string) {
		vm.Assert(id != "in1", "message acknowledged that did not fit")
	}
	vm.Assert(s.HandleStream(message("in0")) == nil, "message refused")
	vm.Assert(s.HandleStream(message("in1")) != nil, "message that does not fit accepted")
	vm.Assert((<-s.Channel()).RequestId == "in0", "wrong message")
	vm.Assert(s.HandleStream(message("in2")) == nil, "message refused")
	vm.Assert(e.got == 2, "wrong number of acknowledgements")
	closes, handled, read := 0, false, false
	for i := 0; i < 2; i++ {
		go func() {
			if err := s.Close(nil); err != nil {
				vm.Assert(err == s.Err(), "second Close does not report the first cause")
			}
			closes++
		}()
	}
	go func() {
		_ = s.HandleStream(&internal.Stream{StreamId: "s1", RequestId: "c", Expiry: 1 << 62, Body: &internal.Stream_Close{Close: &internal.StreamClose{Error: "remote", Code: string(psrpc.NotFound)}}})
		handled = true
	}()
	go func() {
		n := 0
		for m := range s.Channel() {
			vm.Assert(m.RequestId == "in2", "wrong message")
			n++
		}
		vm.Assert(n == 1, "acknowledged message lost")
		read = true
	}()
	vm.Final(func() {
		vm.Assert(closes == 2 && handled, "closing never returns")
		vm.Assert(read, "receive channel never closed")
		vm.Assert(e.released == 1, "bookkeeping not released once")
	})
}
