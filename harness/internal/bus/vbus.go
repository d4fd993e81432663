package bus

import (
	"context"

	"google.golang.org/protobuf/proto"

	vm "github.com/livekit/psrpc/internal/zzvm"
)

// VBus is an ideal message bus for the harnesses of the layers above the bus: a publish is
// one atomic step that puts the message into every subscription of the channel and into one
// member of its queue group. The real buses are the subject of their own properties.
type VBus struct {
	Subs   []*VSub
	OnPub  func(ch Channel, msg proto.Message) error // may fail the publish
	OnSub  func(ch Channel) error
	Opened int
	Closed int
	Mute   bool // what is published reaches nobody; only Inject does
	Cap    int
}

type VSub struct {
	B      *VBus
	Ch     string
	Queue  bool
	Closed bool
	Closes int // how often Close was called
	lost   bool
	c      chan []byte
}

// Lose ends the subscription from the side of the bus.
func (s *VSub) Lose() {
	vm.AtomicBegin()
	if !s.lost && !s.Closed {
		s.lost = true
		close(s.c)
	}
	vm.AtomicEnd()
}

func NewVBus() *VBus { return &VBus{Cap: 4} }

func (b *VBus) Publish(_ context.Context, ch Channel, msg proto.Message) error {
	vm.Yield()
	if b.OnPub != nil {
		if err := b.OnPub(ch, msg); err != nil {
			return err
		}
	}
	buf, err := serialize(msg, "")
	if err != nil {
		return err
	}
	if b.Mute {
		return nil
	}
	b.Inject(ch.Legacy, buf)
	return nil
}

// Inject puts raw bytes on a channel.
func (b *VBus) Inject(ch string, buf []byte) {
	vm.AtomicBegin()
	queued := false
	for _, s := range b.Subs {
		if s.Ch != ch || s.Closed || s.lost || s.Queue && queued {
			continue
		}
		if s.Queue {
			queued = true
		}
		select {
		case s.c <- buf:
		default:
			vm.Unsupported("bus buffer of the model exceeded")
		}
	}
	vm.AtomicEnd()
}

func (b *VBus) subscribe(ch Channel, queue bool) (Reader, error) {
	vm.Yield()
	if b.OnSub != nil {
		if err := b.OnSub(ch); err != nil {
			return nil, err
		}
	}
	s := &VSub{B: b, Ch: ch.Legacy, Queue: queue, c: make(chan []byte, b.Cap)}
	vm.AtomicBegin()
	b.Subs = append(b.Subs, s)
	b.Opened++
	vm.AtomicEnd()
	return s, nil
}

func (b *VBus) Subscribe(_ context.Context, ch Channel, _ int) (Reader, error) {
	return b.subscribe(ch, false)
}
func (b *VBus) SubscribeQueue(_ context.Context, ch Channel, _ int) (Reader, error) {
	return b.subscribe(ch, true)
}

// Open counts the open subscriptions.
func (b *VBus) Open() int { return b.Opened - b.Closed }

// OpenOn counts the open subscriptions of a channel.
func (b *VBus) OpenOn(ch string) int {
	n := 0
	for _, s := range b.Subs {
		if s.Ch == ch && !s.Closed {
			n++
		}
	}
	return n
}

func (s *VSub) read() ([]byte, bool) {
	b, ok := <-s.c
	return b, ok
}

func (s *VSub) Close() error {
	vm.AtomicBegin()
	s.Closes++
	if !s.Closed {
		s.Closed = true
		s.B.Closed++
		if !s.lost {
			close(s.c)
		}
	}
	vm.AtomicEnd()
	return nil
}

// Encode gives the envelope of a message.
func Encode(msg proto.Message) []byte {
	b, err := serialize(msg, "")
	if err != nil {
		panic(err)
	}
	return b
}
