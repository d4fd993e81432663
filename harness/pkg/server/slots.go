package server

import (
	"context"
	"errors"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/info"
)

// vslots registers two kinds of handlers for methods A and B.
type vslots struct {
	b       *bus.VBus
	s       *RPCServer
	claim   bool
	served  [8]int // requests handled by the handler of a registration
	failing bool   // subscribing may fail
	fails   int
	nsub    int
	failAt  int // the subscription that fails
}

var errVSub = errors.New("no subscription")

func vnewslots(claim bool) *vslots {
	sd := &info.ServiceDefinition{Name: "S", ID: "srv"}
	sd.RegisterMethod("A", false, false, claim, !claim)
	sd.RegisterMethod("B", false, false, claim, !claim)
	v := &vslots{b: bus.NewVBus(), claim: claim, failAt: -1}
	v.b.Mute = true
	v.b.OnSub = func(bus.Channel) error {
		v.nsub++
		if v.nsub-1 == v.failAt {
			v.fails++
			return errVSub
		}
		return nil
	}
	v.s = NewRPCServer(sd, v.b)
	return v
}

// each is the number of subscriptions of a registered handler.
func (v *vslots) each() int {
	if v.claim {
		return 2
	}
	return 1
}

// register registers handler n for a method, unary or stream.
func (v *vslots) register(rpc, topic string, stream bool, n int) error {
	if stream {
		return RegisterStreamHandler[*vmsg, *vmsg](v.s, rpc, []string{topic}, func(psrpc.ServerStream[*vmsg, *vmsg]) error {
			v.served[n]++
			return nil
		}, nil)
	}
	return RegisterHandler[*vmsg, *vmsg](v.s, rpc, []string{topic}, func(context.Context, *vmsg) (*vmsg, error) {
		v.served[n]++
		return &vmsg{}, nil
	}, nil)
}

func (v *vslots) request(rpc, topic string) {
	p, err := bus.SerializePayload(&vmsg{})
	vm.Assert(err == nil, "serialize")
	v.b.Inject(v.s.GetInfo(rpc, []string{topic}).GetRPCChannel().Legacy, bus.Encode(&internal.Request{
		RequestId: "r", ClientId: "cli", Expiry: 1 << 62, RawRequest: p,
	}))
}

// VerifTwice: two concurrent registrations of one method and topic, unary or stream: exactly one
// succeeds, its subscriptions are the only ones, and the slot is free again after it is deregistered.
//
//verif:harness P21 rounds=2 rounds.thorough=3 cases=4 prune=1
func VerifTwice() {
	vm.AtomicBegin()
	v := vnewslots(false)
	vm.AtomicEnd()
	var errs [2]error
	done := 0
	for i := 0; i < 2; i++ {
		go func() {
			errs[i] = v.register("A", "t", vm.Case()>>i&1 != 0, i)
			done++
		}()
	}
	vm.Final(func() {
		vm.Reach("registered")
		vm.Assert(done == 2, "a registration never returns")
		vm.Assert(errs[0] == nil || errs[1] == nil, "neither of two registrations succeeds")
		vm.Assert(errs[0] != nil || errs[1] != nil, "two handlers are registered for one method and topic")
		vm.Assert(v.b.Open() == 1, "a failed registration leaves a subscription, or the registered handler has none")
	})
}

// VerifSlots: a history of four operations on two methods and topics - register (unary or stream, in which
// any one subscribing may fail), deregister - against the set of registered handlers. Case bit 0: claim.
// The first operation is the case divided by two.
//
//verif:harness P21 coop=1 rounds=6 cases=8
func VerifSlots() {
	v := vnewslots(vm.Case()%2 == 1)
	have := map[int]int{} // slot -> registration
	v.failAt = vm.Int("failAt", -1, 7)
	for n := 0; n < 4; n++ {
		op := vm.Case() / 2
		if n > 0 {
			op = vm.Choose("op", 4, n)
		}
		slot := vm.Choose("slot", 2, n)
		rpc, topic := "A", [2]string{"t", "u"}[slot]
		_, taken := have[slot]
		open := v.b.Open()
		switch op {
		case 0, 1:
			failed := v.fails
			err := v.register(rpc, topic, op == 1, n)
			if taken || v.fails > failed {
				vm.Reach("refused")
				vm.Assert(err != nil, "a second registration of a method and topic, or one that could not subscribe, succeeds")
				vm.Assert(v.b.Open() == open, "a failed registration leaves a subscription")
			} else {
				vm.Assert(err == nil, "a registration for a free slot fails")
				have[slot] = n
			}
		case 2:
			v.s.DeregisterHandler(rpc, []string{topic})
			delete(have, slot)
		case 3:
			v.s.DeregisterHandler("B", []string{topic})
		}
		vm.Assert(v.b.Open() == len(have)*v.each(), "the open subscriptions are not those of the registered handlers")
	}
	vm.Reach("end")
}

// VerifServes: of two registrations for one method and topic the first keeps serving; after it is
// deregistered, the next one does. Of two topics, each serves its own requests.
//
//verif:harness P21 coop=1 rounds=5 cases=2
func VerifServes() {
	v := vnewslots(false)
	vm.Assert(v.register("A", "t", false, 0) == nil, "registration")
	vm.Assert(v.register("A", "t", vm.Case() == 1, 1) != nil, "a second registration succeeds")
	again := vm.Bool("again")
	if again {
		v.s.DeregisterHandler("A", []string{"t"})
		vm.Assert(v.register("A", "t", false, 2) == nil, "a registration for a freed slot fails")
	}
	vm.Assert(v.register("A", "u", false, 3) == nil, "registration for another topic")
	v.request("A", "t")
	both := vm.Bool("both")
	if both {
		v.request("A", "u")
	}
	vm.Final(func() {
		vm.Reach("served")
		first, second := 1, 0
		if again {
			first, second = 0, 1
		}
		other := 0
		if both {
			other = 1
		}
		vm.Assert(v.served[0] == first && v.served[1] == 0 && v.served[2] == second && v.served[3] == other, "requests are not handled by the registered handler")
	})
}

// VerifGroup: groups of up to four members of which any may fail to register.
//
//verif:harness P21 cases=5
func VerifGroup() {
	n := vm.Case()
	failAt := vm.Int("failAt", -1, 4)
	var regs, deregs [4]int
	bad := errors.New("bad")
	var rs RegistererSlice
	for i := 0; i < n; i++ {
		rs = append(rs, NewRegisterer(
			func(topic string) error {
				vm.Assert(topic == "t", "registered for another topic")
				if i == failAt {
					return bad
				}
				regs[i]++
				return nil
			},
			func(topic string) {
				vm.Assert(topic == "t", "deregistered for another topic")
				deregs[i]++
			},
		))
	}
	err := rs.Register("t")
	if failAt >= 0 && failAt < n {
		vm.Reach("fails")
		vm.Assert(err == bad, "the error of the failed member is not returned")
	} else {
		vm.Reach("succeeds")
		vm.Assert(err == nil, "an error although every member registered")
	}
	for i := 0; i < n; i++ {
		switch {
		case err == nil:
			vm.Assert(regs[i] == 1 && deregs[i] == 0, "a member is not registered")
		case i < failAt:
			vm.Assert(regs[i] == 1 && deregs[i] == 1, "a member registered before the failing one stays registered")
		default:
			vm.Assert(regs[i] == 0 && deregs[i] == 0, "a member that was not registered is deregistered")
		}
	}
	if err == nil {
		rs.Deregister("t")
		for i := 0; i < n; i++ {
			vm.Assert(regs[i] == 1 && deregs[i] == 1, "deregistering a group leaves a member registered")
		}
	}
}

// VerifGroupSlots: a group of real registrations, of which one fails because its slot is taken or its
// subscribing fails: only what was there before stays.
//
//verif:harness P21 coop=1 rounds=6 cases=2
func VerifGroupSlots() {
	v := vnewslots(vm.Case() == 1)
	taken := vm.Int("taken", -1, 2)
	names := [3]string{"t", "u", "w"}
	base := 0
	if taken >= 0 {
		vm.Assert(v.register("A", names[taken], false, 7) == nil, "registration")
		base = v.each()
	}
	v.failAt = vm.Int("failAt", -1, 5)
	if v.failAt >= 0 {
		v.failAt += v.nsub
	}
	var rs RegistererSlice
	for i, t := range names {
		rs = append(rs, NewRegisterer(
			func() error { return v.register("A", t, i == 1, i) },
			func() { v.s.DeregisterHandler("A", []string{t}) },
		))
	}
	err := rs.Register()
	if err == nil {
		vm.Reach("registered")
		vm.Assert(taken < 0 && v.fails == 0, "a group registers although a member cannot")
		vm.Assert(v.b.Open() == 3*v.each(), "a group is not registered")
		rs.Deregister()
		vm.Assert(v.b.Open() == 0, "a deregistered group leaves a subscription")
	} else {
		vm.Reach("refused")
		vm.Assert(taken >= 0 || v.fails > 0, "a group does not register although every member can")
		vm.Assert(v.b.Open() == base, "a failed group registration leaves a subscription, or takes one that was there before")
	}
}
