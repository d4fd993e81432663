package bus

import (
	"context"

	"github.com/livekit/psrpc/internal"
	vm "github.com/livekit/psrpc/internal/zzvm"
)

var vch = Channel{Legacy: "S|M|REQ", Server: "SRV.S", Local: "M.REQ"}

func vpub(b MessageBus, ch Channel, id string) {
	err := b.Publish(context.Background(), ch, &internal.Request{RequestId: id})
	vm.Assert(err == nil, "publish failed")
}

func vsub(b MessageBus, ch Channel, size int) Reader {
	r, err := b.Subscribe(context.Background(), ch, size)
	vm.Assert(err == nil, "subscribe failed")
	return r
}

func vqueue(b MessageBus, ch Channel, size int) Reader {
	r, err := b.SubscribeQueue(context.Background(), ch, size)
	vm.Assert(err == nil, "subscribe failed")
	return r
}

// vnext reads one message; "" when the subscription has ended.
func vnext(r Reader) string {
	buf, ok := r.read()
	if !ok {
		return ""
	}
	p, err := deserialize(buf)
	m, is := p.(*internal.Request)
	vm.Assert(err == nil && is, "message damaged")
	return m.RequestId
}

func vempty(b MessageBus) bool {
	l := b.(*localMessageBus)
	return len(l.subs) == 0 && len(l.queues) == 0
}

// LocalBroadcast: a publisher of two messages, a subscription that stays open, one that closes and one
// that opens meanwhile, on one channel; a subscription on another channel.
//
//verif:harness P09 rounds=2 rounds.thorough=3
func LocalBroadcast() {
	b := NewLocalMessageBus()
	a, c := vsub(b, vch, 2), vsub(b, vch, 2)
	other := vsub(b, Channel{Legacy: "S|N|REQ", Server: "SRV.S", Local: "N.REQ"}, 1)
	pub, cl, op := false, false, false
	var late Reader
	go func() {
		vpub(b, vch, "1")
		vpub(b, vch, "2")
		pub = true
	}()
	go func() {
		c.Close()
		cl = true
	}()
	go func() {
		late = vsub(b, vch, 2)
		op = true
	}()
	vm.Final(func() {
		vm.Assert(pub && cl && op, "publishing, closing or subscribing never returns")
		vm.Assert(vnext(a) == "1" && vnext(a) == "2", "message lost or reordered")
		x := vnext(c)
		if x == "1" {
			x = vnext(c)
		}
		if x == "2" {
			x = vnext(c)
		}
		vm.Assert(x == "", "message after the end")
		a.Close()
		vm.Assert(vnext(a) == "", "message twice")
		late.Close()
		x = vnext(late)
		if x == "1" {
			vm.Assert(vnext(late) == "2", "message lost")
			x = vnext(late)
		} else if x == "2" {
			x = vnext(late)
		}
		vm.Assert(x == "", "message twice")
		other.Close()
		vm.Assert(vnext(other) == "", "message of another channel")
		vm.Assert(vempty(b), "something is kept for unused channels")
	})
}

// LocalQueue: two queue members and a plain subscription, two publishers of one message each.
//
//verif:harness P09 rounds=3 rounds.thorough=4
func LocalQueue() {
	b := NewLocalMessageBus()
	q1, q2, s := vqueue(b, vch, 2), vqueue(b, vch, 2), vsub(b, vch, 2)
	done := 0
	for _, id := range []string{"1", "2"} {
		go func() {
			vpub(b, vch, id)
			done++
		}()
	}
	vm.Final(func() {
		vm.Assert(done == 2, "publish never returns")
		x, y := vnext(q1), vnext(q2) // rotation: one each
		vm.Assert(x == "1" && y == "2" || x == "2" && y == "1", "queue message lost, duplicated or not rotated")
		x, y = vnext(s), vnext(s)
		vm.Assert(x == "1" && y == "2" || x == "2" && y == "1", "message lost")
		q1.Close()
		q2.Close()
		s.Close()
		vm.Assert(vnext(q1) == "" && vnext(q2) == "" && vnext(s) == "", "message twice")
		vm.Assert(vempty(b), "something is kept for unused channels")
	})
}

// LocalQueueClose: of two queue members one closes while two messages are published.
//
//verif:harness P09 rounds=3 rounds.thorough=4
func LocalQueueClose() {
	b := NewLocalMessageBus()
	q1, q2 := vqueue(b, vch, 2), vqueue(b, vch, 2)
	pub, cl := false, false
	go func() {
		vpub(b, vch, "1")
		vpub(b, vch, "2")
		pub = true
	}()
	go func() {
		q1.Close()
		cl = true
	}()
	vm.Final(func() {
		vm.Assert(pub && cl, "publishing or closing never returns")
		q2.Close()
		n1, n2 := 0, 0
		for _, q := range []Reader{q1, q2} {
			for i := 0; i < 3; i++ {
				switch vnext(q) {
				case "1":
					n1++
				case "2":
					n2++
				}
			}
		}
		vm.Assert(n1 == 1 && n2 == 1, "queue message lost or duplicated although a member stayed open")
		vm.Assert(vempty(b), "something is kept for unused channels")
	})
}

// LocalSlow: the publisher waits for a slow subscription whose reader first closes another
// subscription of the channel, or closes the slow one, while a third party uses the bus.
//
//verif:harness P09 cases=2 rounds=3 rounds.thorough=4
func LocalSlow() {
	b := NewLocalMessageBus()
	slow, other := vsub(b, vch, 1), vsub(b, vch, 2)
	pub, red, third := false, false, false
	go func() {
		vpub(b, vch, "1")
		vpub(b, vch, "2")
		pub = true
	}()
	go func() {
		if vm.Case() == 0 {
			other.Close()
			vm.Assert(vnext(slow) == "1" && vnext(slow) == "2", "message lost or reordered")
		} else {
			slow.Close()
		}
		red = true
	}()
	go func() {
		r := vsub(b, Channel{Legacy: "x"}, 1)
		vpub(b, Channel{Legacy: "x"}, "3")
		vm.Assert(vnext(r) == "3", "wrong message")
		third = true
	}()
	vm.Final(func() {
		vm.Assert(third, "a slow subscription blocks other channels for ever")
		vm.Assert(red, "closing never returns")
		vm.Assert(pub, "publish never returns")
		if vm.Case() == 1 {
			vm.Assert(vnext(other) == "1" && vnext(other) == "2", "message lost")
		}
	})
}

// LocalRotate: three queue members of which any may have closed (and one reopened), then four messages.
//
//verif:harness P09 coop=1 cases=8
func LocalRotate() {
	b := NewLocalMessageBus()
	var q []Reader
	for i := 0; i < 3; i++ {
		q = append(q, vqueue(b, vch, 6))
	}
	open := []bool{true, true, true}
	n := 3
	pre := vm.Choose("before", 3) // messages published before
	for i := 0; i < pre; i++ {
		vpub(b, vch, "0")
	}
	for i := 0; i < 3; i++ {
		if vm.Case()>>i&1 == 1 {
			q[i].Close()
			open[i] = false
			n--
		}
	}
	if n < 3 && vm.Bool("reopen") {
		q = append(q, vqueue(b, vch, 6))
		open = append(open, true)
		n++
	}
	ids := []string{"1", "2", "3", "4"}
	for _, id := range ids {
		vpub(b, vch, id)
	}
	if n == 0 {
		vm.Assert(vempty(b), "something is kept for unused channels")
	}
	var owner [4]int
	got := 0
	for i := range q {
		if open[i] {
			q[i].Close()
		}
		last := 0
		for k := 0; k < 5; k++ {
			x := vnext(q[i])
			if x == "" {
				break
			}
			for m, id := range ids {
				if x == id {
					vm.Assert(open[i], "message to a closed member")
					vm.Assert(m+1 > last, "messages reordered")
					last = m + 1
					owner[m] = i
					got++
				}
			}
		}
	}
	if n > 0 {
		vm.Assert(got == 4, "queue message lost or duplicated")
		for m := 0; m < 4; m++ {
			for k := m + 1; k < 4 && k < m+n; k++ {
				vm.Assert(owner[m] != owner[k], "queue does not rotate")
			}
		}
	}
	vm.Assert(vempty(b), "something is kept for unused channels")
}

// LocalHistory: every history of four (thorough: five) operations - opening and closing two plain
// and two queue subscriptions of one channel, publishing - one case per first operation.
//
//verif:harness P09 coop=1 cases=5 budget.thorough=1500
func LocalHistory() {
	b := NewLocalMessageBus()
	var r [4]Reader
	var open, used [4]bool
	var want [2]int
	queued := 0
	steps := 4
	if vm.Thorough() {
		steps = 5
	}
	for i := 0; i < steps; i++ {
		op := vm.Case()
		if i > 0 {
			op = vm.Choose("op", 5, i)
		}
		if op == 4 {
			vpub(b, vch, "m")
			for k := range want {
				if open[k] {
					want[k]++
				}
			}
			if open[2] || open[3] {
				queued++
			}
		}
		for k := range r {
			if k != op {
				continue
			}
			if open[k] {
				r[k].Close()
				open[k] = false
			} else if !used[k] {
				used[k], open[k] = true, true
				if k < 2 {
					r[k] = vsub(b, vch, 6)
				} else {
					r[k] = vqueue(b, vch, 6)
				}
			}
		}
	}
	n := 0
	for k := range r {
		if !used[k] {
			continue
		}
		if open[k] {
			r[k].Close()
		}
		m := 0
		for i := 0; i <= steps && vnext(r[k]) != ""; i++ {
			m++
		}
		if k < 2 {
			vm.Assert(m == want[k], "messages lost, duplicated or misdirected")
		} else {
			n += m
		}
	}
	vm.Assert(n == queued, "queue messages lost or duplicated")
	vm.Assert(vempty(b), "something is kept for unused channels")
}

// LocalSlots: two open subscriptions of one channel (plain or queue by case), then every history of
// three (thorough: four) operations opening and closing up to three subscriptions or publishing, and
// a last message (one case per first operation).
//
//verif:harness P09 coop=1 cases=8 budget.thorough=1500
func LocalSlots() {
	b := NewLocalMessageBus()
	queue := vm.Case() >= 4
	sub := func() Reader {
		if queue {
			return vqueue(b, vch, 6)
		}
		return vsub(b, vch, 6)
	}
	r := [3]Reader{sub(), sub(), nil}
	open := [3]bool{true, true, false}
	var want, got [3]int
	total, sum := 0, 0
	drain := func(k int) {
		r[k].Close()
		for i := 0; i <= 6 && vnext(r[k]) != ""; i++ {
			got[k]++
		}
		open[k] = false
	}
	publish := func() {
		vpub(b, vch, "m")
		some := false
		for k := range open {
			if open[k] {
				some = true
				want[k]++
			}
		}
		if some {
			total++
		}
	}
	steps := 3
	if vm.Thorough() {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		op := vm.Case() % 4
		if i > 0 {
			op = vm.Choose("op", 4, i)
		}
		if op == 3 {
			publish()
		}
		for k := range r {
			if k != op {
				continue
			}
			if open[k] {
				drain(k)
			} else {
				r[k] = sub()
				open[k] = true
			}
		}
	}
	publish()
	for k := range r {
		if open[k] {
			drain(k)
		}
		if !queue {
			vm.Assert(got[k] == want[k], "messages lost, duplicated or misdirected")
		}
		sum += got[k]
	}
	if queue {
		vm.Assert(sum == total, "queue messages lost or duplicated")
	}
	vm.Assert(vempty(b), "something is kept for unused channels")
}
