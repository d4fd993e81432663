package bus

import (
	"context"
	"errors"
	"time"

	"github.com/redis/go-redis/v9"

	"github.com/livekit/psrpc/internal"
	vm "github.com/livekit/psrpc/internal/zzvm"
)

// vredis stands for a Redis client: what is published through pipelines arrives in sent, and at the
// subscribed connections; locks last as long as they are set for. A subscribe or unsubscribe command that
// fails has an unknown effect on the server until one that succeeds; the client library remembers the
// channel as subscribed or not all the same, and does so at the server when it connects again.
type vredis struct {
	redis.UniversalClient
	conns   []*vrconn
	sent    []redis.Message
	locks   map[string]int64
	execErr func() bool
}

type vrconn struct {
	ps   *redis.PubSub
	rec  map[string]bool // remembered by the client library
	sure map[string]bool // known to be subscribed at the server
	c    chan *redis.Message
	fail func() bool
	cmds int
}

type vrpipe struct {
	redis.Pipeliner
	r    *vredis
	msgs []redis.Message
}

var vr *vredis

var errVRedis = errors.New("redis: no")

func vredisBus(n int) []*redisMessageBus {
	vr = &vredis{locks: map[string]int64{}}
	var bs []*redisMessageBus
	for i := 0; i < n; i++ {
		bs = append(bs, NewRedisMessageBus(vr).(*redisMessageBus))
	}
	return bs
}

func (r *vredis) Subscribe(_ context.Context, channels ...string) *redis.PubSub {
	c := &vrconn{ps: &redis.PubSub{}, rec: map[string]bool{}, sure: map[string]bool{}, c: make(chan *redis.Message, 4)}
	r.conns = append(r.conns, c)
	return c.ps
}

func (r *vredis) Pipeline() redis.Pipeliner { return &vrpipe{r: r} }

func (r *vredis) SetNX(_ context.Context, key string, _ any, d time.Duration) *redis.BoolCmd {
	vm.Yield()
	vm.AtomicBegin()
	now := vm.Clock()
	until, ok := r.locks[key]
	ok = ok && now < until
	if !ok {
		r.locks[key] = now + int64(d)
	}
	vm.AtomicEnd()
	return redis.NewBoolResult(!ok, nil)
}

func (p *vrpipe) Publish(_ context.Context, channel string, msg any) *redis.IntCmd {
	p.msgs = append(p.msgs, redis.Message{Channel: channel, Payload: string(msg.([]byte))})
	return nil
}

func (p *vrpipe) Exec(context.Context) ([]redis.Cmder, error) {
	vm.Yield()
	vm.AtomicBegin()
	for _, m := range p.msgs {
		p.r.sent = append(p.r.sent, m)
		p.r.deliver(m.Channel, m.Payload)
	}
	vm.AtomicEnd()
	p.msgs = nil
	return nil, nil
}

// deliver hands a message to every connection that is subscribed to the channel.
func (r *vredis) deliver(channel, payload string) {
	for _, c := range r.conns {
		if c.sure[channel] {
			select {
			case c.c <- &redis.Message{Channel: channel, Payload: payload}:
			default:
				vm.Unsupported("redis buffer of the model exceeded")
			}
		}
	}
}

func vrconnOf(ps *redis.PubSub) *vrconn {
	for _, c := range vr.conns {
		if c.ps == ps {
			return c
		}
	}
	panic("redis: unknown connection")
}

//vm:replace (*github.com/redis/go-redis/v9.PubSub).Subscribe
func vrSubscribe(ps *redis.PubSub, _ context.Context, channels ...string) error {
	return vrconnOf(ps).command(true, channels)
}

//vm:replace (*github.com/redis/go-redis/v9.PubSub).Unsubscribe
func vrUnsubscribe(ps *redis.PubSub, _ context.Context, channels ...string) error {
	return vrconnOf(ps).command(false, channels)
}

//vm:replace (*github.com/redis/go-redis/v9.PubSub).ReceiveMessage
func vrReceiveMessage(ps *redis.PubSub, _ context.Context) (*redis.Message, error) {
	return <-vrconnOf(ps).c, nil
}

func (c *vrconn) command(sub bool, channels []string) error {
	vm.Yield()
	vm.Assert(len(channels) > 0, "a subscribe or unsubscribe command without channels")
	vm.AtomicBegin()
	c.cmds++
	failed := c.fail != nil && c.fail()
	for _, ch := range channels {
		if sub {
			c.rec[ch] = true
		} else {
			delete(c.rec, ch)
		}
		if !failed {
			if sub {
				c.sure[ch] = true
			} else {
				delete(c.sure, ch)
			}
		}
	}
	vm.AtomicEnd()
	if failed {
		return errVRedis
	}
	return nil
}

//vm:replace github.com/redis/go-redis/v9.NewBoolResult
func vrBoolResult(val bool, err error) *redis.BoolCmd {
	c := &redis.BoolCmd{}
	vrResults = append(vrResults, vrResult{c, val, err})
	return c
}

type vrResult struct {
	c   *redis.BoolCmd
	val bool
	err error
}

var vrResults []vrResult

//vm:replace (*github.com/redis/go-redis/v9.BoolCmd).Result
func vrBool(c *redis.BoolCmd) (bool, error) {
	for _, r := range vrResults {
		if r.c == c {
			return r.val, r.err
		}
	}
	return false, errVRedis
}

// The hashes only have to be functions of their input, different for different inputs.

//vm:replace crypto/sha256.Sum256
func vrSum256(b []byte) (h [32]byte) {
	if len(b) > 31 {
		vm.Unsupported("long input of the hash")
	}
	h[0] = byte(len(b))
	copy(h[1:], b)
	return h
}

//vm:replace (*encoding/base64.Encoding).EncodeToString
func vrBase64(_ any, b []byte) string { return string(b) }

//vm:replace math/rand.Int
func vrRand() int { return 7 }

//vm:replace github.com/zeebo/xxh3.HashString
func vrHash(s string) uint64 {
	if s == "" {
		return 0
	}
	return uint64(s[0])
}

// The queue of write operations, without the ring buffer.

type vrqueue struct {
	q   any
	ops []any
}

var vrqueues []*vrqueue

func vrqueueOf(q any) *vrqueue {
	for _, x := range vrqueues {
		if x.q == q {
			return x
		}
	}
	x := &vrqueue{q: q}
	vrqueues = append(vrqueues, x)
	return x
}

//vm:replace (*github.com/gammazero/deque.Deque[T]).PushBack
func vrPush(q any, op any) {
	x := vrqueueOf(q)
	x.ops = append(x.ops, op)
}

//vm:replace (*github.com/gammazero/deque.Deque[T]).PopFront
func vrPop(q any) any {
	x := vrqueueOf(q)
	op := x.ops[0]
	x.ops = x.ops[1:]
	return op
}

//vm:replace (*github.com/gammazero/deque.Deque[T]).Front
func vrFront(q any) any { return vrqueueOf(q).ops[0] }

//vm:replace (*github.com/gammazero/deque.Deque[T]).Len
func vrLen(q any) int { return len(vrqueueOf(q).ops) }

// converged: exactly the channels with an open subscription are subscribed at Redis.
func (c *vrconn) converged(channels []string, open func(string) bool) {
	for _, ch := range channels {
		if open(ch) {
			vm.Assert(c.sure[ch] && c.rec[ch], "a channel with an open subscription is not subscribed at Redis")
		} else {
			vm.Assert(!c.sure[ch] && !c.rec[ch], "a channel without an open subscription stays subscribed at Redis")
		}
	}
}

// VerifRedisConverges: histories of four operations - opening and closing a plain and a queue subscription of
// one channel and a plain one of another; the first opens the plain one, the others by case - with or without
// time in between, while any of the first two commands fail (the first 72 of the 216 cases are the quick ones).
//
//verif:harness P10 event=1 rounds=14 clock=-1 cases=72 cases.thorough=216
func VerifRedisConverges() {
	b := vredisBus(1)[0]
	c := vr.conns[0]
	var fails [2]bool
	for i := range fails {
		fails[i] = vm.Bool("fail", i)
	}
	k := vm.Case()
	nf := 2
	if k/8 == 7 {
		nf = 1 // the solver does not finish with more
	}
	c.fail = func() bool {
		if c.cmds <= nf && fails[c.cmds-1] {
			vm.Reach("failed")
			return true
		}
		return false
	}
	pauses := [4]bool{k&1 != 0, k&2 != 0, k&4 != 0}
	k = [27]int{0, 9, 10, 4, 20, 6, 8, 2, 3, 1, 5, 7, 11, 12, 13, 14, 15, 16, 17, 18, 19, 21, 22, 23, 24, 25, 26}[k/8]
	var open [3]Reader
	step := func(n, which int) {
		if r := open[which]; r != nil {
			vm.Assert(r.Close() == nil, "closing fails")
			open[which] = nil
		} else {
			var err error
			if which == 1 {
				r, err = b.SubscribeQueue(context.Background(), Channel{Legacy: "a"}, 2)
			} else {
				r, err = b.Subscribe(context.Background(), Channel{Legacy: [3]string{"a", "a", "b"}[which]}, 2)
			}
			vm.Assert(err == nil, "subscribe")
			open[which] = r
		}
		if pauses[n] {
			time.Sleep(400 * time.Millisecond)
		}
	}
	step(0, 0)
	step(1, k%3)
	step(2, k/3%3)
	step(3, k/9)
	vm.Final(func() {
		vm.Reach("end")
		c.converged([]string{"a", "b"}, func(ch string) bool {
			if ch == "b" {
				return open[2] != nil
			}
			return open[0] != nil || open[1] != nil
		})
	})
}

// VerifRedisOrder: two publishers, each of two messages on a channel (the same in case 0; in case 1, 2 others,
// which share a queue or not): all messages are sent once, those of a publisher and channel in its order.
//
//verif:harness P10 rounds=2 rounds.thorough=3 prune=1 cases=3
func VerifRedisOrder() {
	vm.AtomicBegin()
	b := vredisBus(1)[0]
	names := [2]string{"a", [3]string{"a", "aa", "b"}[vm.Case()]}
	ids := [2][2]string{{"0", "1"}, {"2", "3"}}
	vm.AtomicEnd()
	for i := 0; i < 2; i++ {
		go func() {
			for k := 0; k < 2; k++ {
				err := b.Publish(context.Background(), Channel{Legacy: names[i]}, &internal.ClaimResponse{ServerId: ids[i][k]})
				vm.Assert(err == nil, "publish fails")
			}
		}()
	}
	vm.Final(func() {
		vm.Reach("end")
		vm.Assert(len(vr.sent) == 4, "a message is lost or sent twice")
		for i := 0; i < 2; i++ {
			at := [2]int{-1, -1}
			for p, m := range vr.sent {
				v, err := deserialize([]byte(m.Payload))
				vm.Assert(err == nil, "something else is sent")
				for k := 0; k < 2; k++ {
					if v.(*internal.ClaimResponse).ServerId == ids[i][k] {
						vm.Assert(m.Channel == names[i] && at[k] < 0, "a message is sent twice or on another channel")
						at[k] = p
					}
				}
			}
			vm.Assert(at[0] >= 0 && at[0] < at[1], "the messages of a channel are sent in another order")
		}
	})
}

// vrreader collects what a subscription returns.
type vrreader struct {
	r   Reader
	got []string
}

func vropen(b *redisMessageBus, queue bool, channel string) *vrreader {
	o := &vrreader{}
	var err error
	if queue {
		o.r, err = b.SubscribeQueue(context.Background(), Channel{Legacy: channel}, 4)
	} else {
		o.r, err = b.Subscribe(context.Background(), Channel{Legacy: channel}, 4)
	}
	vm.Assert(err == nil, "subscribe")
	go func() {
		for {
			p, ok := o.r.read()
			if !ok {
				return
			}
			m, err := deserialize(p)
			vm.Assert(err == nil, "something else is received")
			o.got = append(o.got, m.(*internal.ClaimResponse).ServerId)
		}
	}()
	return o
}

func (o *vrreader) is(want ...string) bool {
	if len(o.got) != len(want) {
		return false
	}
	for i := range want {
		if o.got[i] != want[i] {
			return false
		}
	}
	return true
}

// VerifRedisDispatch: three messages on channel a, which has two plain subscriptions, two queue subscriptions
// and the queue subscription of another process, and one on b: the plain ones all receive, of the queue ones
// one for each message, which are taken in turn within a process. In case 1 the first queue subscription is
// closed after the first message, in case 2 the first plain one; in case 3 the other process comes first.
//
//verif:harness P10 event=1 rounds=14 clock=-1 cases=4
func VerifRedisDispatch() {
	bs := vredisBus(2)
	var o *vrreader
	if vm.Case() == 3 {
		o = vropen(bs[1], true, "a")
	}
	p := [2]*vrreader{vropen(bs[0], false, "a"), vropen(bs[0], false, "a")}
	q := [2]*vrreader{vropen(bs[0], true, "a"), vropen(bs[0], true, "a")}
	if o == nil {
		o = vropen(bs[1], true, "a")
	}
	other := vropen(bs[0], false, "b")
	time.Sleep(400 * time.Millisecond)
	send := func(ch, id string) {
		m, err := serialize(&internal.ClaimResponse{ServerId: id}, "")
		vm.Assert(err == nil, "serialize")
		vr.deliver(ch, string(m))
	}
	ids := []string{"0", "1", "2"}
	send("a", ids[0])
	time.Sleep(400 * time.Millisecond)
	first := len(q[0].got)
	switch vm.Case() {
	case 1:
		vm.Assert(q[0].r.Close() == nil, "closing fails")
	case 2:
		vm.Assert(p[0].r.Close() == nil, "closing fails")
	}
	send("a", ids[1])
	send("b", "3")
	send("a", ids[2])
	vm.Final(func() {
		vm.Reach("end")
		if vm.Case() == 2 {
			vm.Assert(p[0].is("0"), "a closed subscription receives")
		} else {
			vm.Assert(p[0].is(ids...), "a plain subscription misses a message or receives another")
		}
		vm.Assert(p[1].is(ids...), "a plain subscription misses a message or receives another")
		vm.Assert(other.is("3"), "the subscription of another channel misses a message or receives another")
		for _, id := range ids {
			n := 0
			for _, s := range []*vrreader{q[0], q[1], o} {
				for _, g := range s.got {
					if g == id {
						n++
					}
				}
			}
			vm.Assert(n == 1, "a queue message is returned by none or several members")
		}
		if vm.Case() == 1 {
			vm.Assert(len(q[0].got) == first, "a closed subscription receives")
		} else {
			for _, s := range q {
				for k := 1; k < len(s.got); k++ {
					vm.Assert(!(s.got[k-1] == "0" && s.got[k] == "1" || s.got[k-1] == "1" && s.got[k] == "2"),
						"one member of a queue is handed messages that follow each other")
				}
			}
		}
		if len(o.got) == 3 {
			vm.Reach("other process")
		}
		if len(o.got) == 0 {
			vm.Reach("this process")
		}
	})
}

// VerifRedisLockRepeat: the same message twice.
//
//verif:harness P10 event=1 rounds=14 clock=-1
func VerifRedisLockRepeat() {
	b := vredisBus(1)[0]
	q := vropen(b, true, "a")
	time.Sleep(400 * time.Millisecond)
	m, err := serialize(&internal.ClaimResponse{ServerId: "x"}, "")
	vm.Assert(err == nil, "serialize")
	vr.deliver("a", string(m))
	vr.deliver("a", string(m))
	vm.Final(func() {
		vm.Reach("end")
		vm.Assert(len(q.got) == 2, "the second of two equal queue messages is returned to nobody")
	})
}

// VerifRedisLockChannels: equal messages on two queue channels.
//
//verif:harness P10 event=1 rounds=14 clock=-1
func VerifRedisLockChannels() {
	b := vredisBus(1)[0]
	q := [2]*vrreader{vropen(b, true, "a"), vropen(b, true, "b")}
	time.Sleep(400 * time.Millisecond)
	m, err := serialize(&internal.ClaimResponse{ServerId: "x"}, "")
	vm.Assert(err == nil, "serialize")
	vr.deliver("a", string(m))
	vr.deliver("b", string(m))
	vm.Final(func() {
		vm.Reach("end")
		vm.Assert(len(q[0].got) == 1 && len(q[1].got) == 1, "a queue message equal to one of another channel is returned to nobody")
	})
}
