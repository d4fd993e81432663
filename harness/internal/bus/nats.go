package bus

import (
	"context"
	"errors"

	"github.com/nats-io/nats.go"

	"github.com/livekit/psrpc/internal"
	vm "github.com/livekit/psrpc/internal/zzvm"
)

// vnats stands for the NATS client library: subscriptions by subject, of which a publish reaches every
// plain one and one of each queue group; subscribing may fail; the callbacks of one subscription run one
// after the other, and one that has begun still ends after the subscription was dropped.
type vnats struct {
	subs  []*vnsub
	fail  func() bool
	async bool // callbacks run in a goroutine of the subscription, else within the publish
}

type vnsub struct {
	subject, queue string
	cb             nats.MsgHandler
	sub            *nats.Subscription
	closed         bool
	c              chan *nats.Msg
}

var vn *vnats

var errVNats = errors.New("nats: no")

func vnatsBus() *natsMessageBus {
	vn = &vnats{}
	return NewNatsMessageBus(nil).(*natsMessageBus)
}

func (n *vnats) subscribe(subject, queue string, cb nats.MsgHandler) (*nats.Subscription, error) {
	vm.Yield()
	if n.fail != nil && n.fail() {
		return nil, errVNats
	}
	s := &vnsub{subject: subject, queue: queue, cb: cb, sub: &nats.Subscription{}}
	vm.AtomicBegin()
	n.subs = append(n.subs, s)
	vm.AtomicEnd()
	if n.async {
		s.c = make(chan *nats.Msg, 3)
		go func() {
			for m := range s.c {
				vm.Yield()
				if !s.closed {
					vm.Yield()
					s.cb(m)
				}
			}
		}()
	}
	return s.sub, nil
}

func (n *vnats) publish(subject string, data []byte) {
	vm.AtomicBegin()
	subs := n.subs
	vm.AtomicEnd()
	var queued []string
	for _, s := range subs {
		if s.subject != subject || s.closed {
			continue
		}
		if s.queue != "" {
			dup := false
			for _, q := range queued {
				dup = dup || q == s.queue
			}
			if dup {
				continue
			}
			queued = append(queued, s.queue)
		}
		m := &nats.Msg{Subject: subject, Data: data}
		if !n.async {
			s.cb(m)
			continue
		}
		select {
		case s.c <- m:
		default:
			vm.Unsupported("nats buffer of the model exceeded")
		}
	}
}

// live counts the subscriptions of a subject.
func (n *vnats) live(subject string) int {
	k := 0
	for _, s := range n.subs {
		if s.subject == subject && !s.closed {
			k++
		}
	}
	return k
}

//vm:replace (*github.com/nats-io/nats.go.Conn).Subscribe
func vnSubscribe(_ *nats.Conn, subject string, cb nats.MsgHandler) (*nats.Subscription, error) {
	return vn.subscribe(subject, "", cb)
}

//vm:replace (*github.com/nats-io/nats.go.Conn).QueueSubscribe
func vnQueueSubscribe(_ *nats.Conn, subject, queue string, cb nats.MsgHandler) (*nats.Subscription, error) {
	return vn.subscribe(subject, queue, cb)
}

//vm:replace (*github.com/nats-io/nats.go.Conn).Publish
func vnPublish(_ *nats.Conn, subject string, data []byte) error {
	vm.Yield()
	vn.publish(subject, data)
	return nil
}

//vm:replace (*github.com/nats-io/nats.go.Subscription).Unsubscribe
func vnUnsubscribe(s *nats.Subscription) error {
	vm.Assert(s != nil, "a NATS subscription is dropped that was never made")
	vm.Yield()
	for _, x := range vn.subs {
		if x.sub == s {
			if x.closed {
				return errVNats
			}
			x.closed = true
			return nil
		}
	}
	return errVNats
}

func vnchannel(local string) Channel { return Channel{Legacy: "S", Server: "S", Local: local} }

// vnopen is an open subscription and what it has to receive.
type vnopen struct {
	r     Reader
	local string
	want  int
	got   int
}

func (o *vnopen) drain() {
	for {
		switch s := o.r.(type) {
		case *natsRouterSubscription:
			if len(s.msgChan) == 0 {
				return
			}
		case *natsSubscription:
			if len(s.msgChan) == 0 {
				return
			}
		}
		b, ok := o.r.read()
		vm.Assert(ok, "an open subscription ends")
		ch, err := deserializeChannel(b)
		vm.Assert(err == nil && ch == o.local, "a message for another local channel is received")
		o.got++
	}
}

// VerifNatsHistory: every history of four (thorough: five) operations on one subject, the first opening - opening a subscription for one of
// two local channels (which may fail), closing one, publishing for one of the channels -, plain (cases
// 0-2) or queue (3-5); one case per second operation.
//
//verif:harness P11 coop=1 rounds=3 cases=6
func VerifNatsHistory() {
	b := vnatsBus()
	queue := vm.Case() >= 3
	locals := [2]string{"a", "b"}
	var open [5]*vnopen
	ops := 4
	if vm.Thorough() {
		ops = 5
	}
	failed, fail := false, false
	vn.fail = func() bool {
		failed = fail
		return fail
	}
	for n := 0; n < ops; n++ {
		op := 0
		if n == 1 {
			op = vm.Case() % 3
		} else if n > 1 {
			op = vm.Choose("op", 3, n)
		}
		local := vm.Choose("local", 2, n)
		k := 0
		for _, o := range open {
			if o != nil {
				k++
			}
		}
		switch op {
		case 0:
			failed, fail = false, vm.Bool("fail", n)
			var r Reader
			var err error
			if queue {
				r, err = b.SubscribeQueue(context.Background(), vnchannel(locals[local]), 4)
			} else {
				r, err = b.Subscribe(context.Background(), vnchannel(locals[local]), 4)
			}
			if failed {
				vm.Reach("failed")
				vm.Assert(err == errVNats, "a failed subscribe is not reported")
				break
			}
			vm.Assert(err == nil, "a subscription fails though the NATS one did not")
			open[n] = &vnopen{r: r, local: locals[local]}
		case 1:
			i := vm.Choose("which", n, n)
			if open[i] != nil {
				open[i].drain()
				vm.Assert(open[i].got == open[i].want, "a message is lost or received twice")
				vm.Assert(open[i].r.Close() == nil, "closing fails")
				open[i] = nil
			}
		case 2:
			vm.Assert(b.Publish(context.Background(), vnchannel(locals[local]), &internal.ClaimResponse{}) == nil, "publish fails")
			for _, o := range open {
				if o != nil && o.local == locals[local] {
					o.want++
					vm.Reach("received")
				}
			}
		}
		k = 0
		for _, o := range open {
			if o != nil {
				k++
			}
		}
		if k > 0 {
			vm.Assert(vn.live("S") == 1, "open subscriptions without a NATS subscription, or with several")
		} else {
			vm.Assert(vn.live("S") == 0, "a NATS subscription is kept without an open subscription")
			vm.Assert(len(b.routers) == 0, "a router is kept without an open subscription")
		}
	}
	for _, o := range open {
		if o != nil {
			o.drain()
			vm.Assert(o.got == o.want, "a message is lost or received twice")
		}
	}
	vm.Reach("end")
}

// VerifNatsMixed: a plain and a queue subscription cannot share a subject; refusing the second leaves the
// first as it was, and after it is closed the other kind may be opened.
//
//verif:harness P11 coop=1 rounds=3 cases=2
func VerifNatsMixed() {
	b := vnatsBus()
	sub := func(queue bool, local string) (Reader, error) {
		if queue {
			return b.SubscribeQueue(context.Background(), vnchannel(local), 4)
		}
		return b.Subscribe(context.Background(), vnchannel(local), 4)
	}
	queue := vm.Case() == 1
	locals := [2]string{"a", "b"}
	r, err := sub(queue, "a")
	vm.Assert(err == nil, "subscribe")
	o := &vnopen{r: r, local: "a", want: 1}
	local := locals[vm.Choose("local", 2)]
	_, err = sub(!queue, local)
	vm.Assert(err != nil, "queue and plain subscriptions share a subject")
	vm.Assert(vn.live("S") == 1, "a refused subscription changes the NATS subscriptions")
	vm.Assert(b.Publish(context.Background(), vnchannel("a"), &internal.ClaimResponse{}) == nil, "publish fails")
	o.drain()
	vm.Assert(o.got == 1, "a refused subscription disturbs the existing one")
	vm.Assert(r.Close() == nil && vn.live("S") == 0, "the NATS subscription is kept after the last close")
	r, err = sub(!queue, local)
	vm.Assert(err == nil, "the other kind is refused although nothing is open")
	o = &vnopen{r: r, local: local}
	vm.Assert(b.Publish(context.Background(), vnchannel(local), &internal.ClaimResponse{}) == nil, "publish fails")
	o.drain()
	vm.Assert(o.got == 1, "a subscription opened again receives nothing")
	vm.Reach("end")
}

// VerifNatsOpenRaces: two subscriptions opened concurrently, for the same local channel or different ones
// (case bit 0), of which subscribing to NATS may fail; from case 2 on the first is closed again, and the
// failures are those of the case. Those that were opened receive, the others leave nothing.
//
//verif:harness P11 rounds=2 rounds.thorough=3 cases=10 prune=1
func VerifNatsOpenRaces() {
	b := vnatsBus()
	failing, calls := [2]bool{vm.Bool("fail", 0), vm.Bool("fail", 1)}, 0
	if k := vm.Case(); k >= 2 {
		failing = [2]bool{(k-2)&2 != 0, (k-2)&4 != 0}
	}
	vn.fail = func() bool {
		calls++
		return calls == 1 && failing[0] || calls == 2 && failing[1]
	}
	locals := [2]string{"a", [2]string{"a", "b"}[vm.Case()&1]}
	var open [2]Reader
	done := 0
	for i := 0; i < 2; i++ {
		go func() {
			r, err := b.Subscribe(context.Background(), vnchannel(locals[i]), 4)
			if err == nil {
				open[i] = r
				if i == 0 && vm.Case() >= 2 {
					vm.Assert(r.Close() == nil, "closing fails")
					open[i] = nil
				}
			}
			done++
		}()
	}
	vm.Final(func() {
		vm.Assert(done == 2, "opening a subscription never returns")
		k := 0
		vn.async = false
		vn.publish("S", vnencode(locals[0]))
		if locals[1] != locals[0] {
			vn.publish("S", vnencode(locals[1]))
		}
		for i := range open {
			if open[i] != nil {
				k++
				s := open[i].(*natsRouterSubscription)
				vm.Assert(len(s.msgChan) == 1, "a subscription that was opened does not receive")
			}
		}
		if k == 0 {
			vm.Reach("none")
			vm.Assert(vn.live("S") == 0 && len(b.routers) == 0, "a NATS subscription is kept without an open subscription")
		} else {
			vm.Reach("open")
			vm.Assert(vn.live("S") == 1, "open subscriptions share several NATS subscriptions")
		}
	})
}

func vnencode(local string) []byte {
	buf, err := serialize(&internal.ClaimResponse{}, local)
	vm.Assert(err == nil, "serialize")
	return buf
}

// VerifNatsCloseRaces: a subscription (routed by local channel in case 0, 2, with a subject of its own in 1)
// is closed while messages arrive; in case 2 another one for the same channel stays open and receives all.
//
//verif:harness P11 rounds=2 rounds.thorough=3 cases=3 prune=1
func VerifNatsCloseRaces() {
	vm.AtomicBegin()
	b := vnatsBus()
	vn.async = true
	local := "a"
	if vm.Case() == 1 {
		local = ""
	}
	r, err := b.Subscribe(context.Background(), vnchannel(local), 1)
	vm.Assert(err == nil, "subscribe")
	var stays Reader
	if vm.Case() == 2 {
		stays, err = b.Subscribe(context.Background(), vnchannel(local), 4)
		vm.Assert(err == nil, "subscribe")
	}
	vn.publish("S", vnencode(local))
	vn.publish("S", vnencode(local))
	vm.AtomicEnd()
	closed := false
	go func() {
		vm.Assert(r.Close() == nil, "closing fails")
		closed = true
	}()
	vm.Final(func() {
		vm.Reach("end")
		vm.Assert(closed, "closing never returns")
		if stays != nil {
			vm.Assert(vn.live("S") == 1 && len(stays.(*natsRouterSubscription).msgChan) == 2, "a subscription that stays open loses a message")
		} else {
			vm.Assert(vn.live("S") == 0, "a NATS subscription is kept after the last close")
		}
	})
}
