package client

import (
	"context"
	"errors"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	vm "github.com/livekit/psrpc/internal/zzvm"
)

const vms = 1 << 20 // about a millisecond

var vIDs = []string{"s0", "s1", "s2", "s3"}

type vEvent struct {
	at    int64 // after the request, ms
	isErr bool
	bad   bool // an error response without error
	aff   float32
}

// VerifSelect runs server selection for a claimed call. Claims with arbitrary affinities and error
// responses arrive at arbitrary times; the case chooses what else may end selection (only the
// call's timeout, the affinity timeout, the short-circuit timeout, both, or the caller's
// cancellation) and how servers are picked (by affinity, first come, by a custom function).
//
//verif:harness P02 event=1 rounds=10 rounds.thorough=13 cases=15 native=1 timeout=200 clock=-1
func VerifSelect() {
	n := 2
	if vm.Thorough() {
		n = 3
	}
	limit, mode := vm.Case()%5, vm.Case()/5
	custom := mode == 2
	o := psrpc.SelectionOpts{
		MinimumAffinity:      vm.F32("min"),
		MaximumAffinity:      vm.F32("max"),
		AcceptFirstAvailable: mode == 1,
	}
	// NaN is no limit anyone can set
	vm.Assume(o.MinimumAffinity == o.MinimumAffinity && o.MaximumAffinity == o.MaximumAffinity)
	total := int64(1000)*8*vms + 7*vms
	if limit == 0 {
		total = int64(vm.Int("timeout", 0, 7))*8*vms + 7*vms
	}
	end := total // when selection ends at the latest
	if limit == 1 || limit == 3 {
		d := int64(vm.Int("affinityTimeout", 1, 7)) * 8 * vms
		o.AffinityTimeout = time.Duration(d)
		if d < end {
			end = d
		}
	}
	if limit >= 2 && limit <= 3 {
		o.ShortCircuitTimeout = time.Duration(vm.Int("short", 1, 7)) * 8 * vms
	}
	var offered []*psrpc.Claim
	funcCalls := 0
	errCustom := errors.New("custom")
	pickCustom := vm.Int("pickCustom", -1, n-1)
	if custom {
		o.SelectionFunc = func(cs []*psrpc.Claim) (string, error) {
			funcCalls++
			offered = cs
			if pickCustom < 0 {
				return "", errCustom
			}
			return vIDs[pickCustom], nil
		}
	}
	evs := make([]vEvent, n)
	last := int64(0)
	for i := range evs {
		last += int64(vm.Int("gap", 0, 7, i))*8*vms + vms // never at the same time as a timeout
		evs[i] = vEvent{at: last, isErr: vm.Bool("isErr", i), bad: vm.Bool("empty", i), aff: vm.F32("affinity", i)}
		vm.Assume(evs[i].aff == evs[i].aff)
		// An affinity of 0 says that the server is not available. Such a claim is never picked by
		// affinity; whether it may be accepted first or start the short circuit is left open.
		if mode == 1 || limit == 2 || limit == 3 {
			vm.Assume(evs[i].aff > 0)
		}
	}
	cancelAt := int64(-1)
	if limit == 4 {
		cancelAt = int64(vm.Int("cancelAt", 0, 7))*8*vms + 5*vms
		if cancelAt < end {
			end = cancelAt
		}
	}

	// the oracle
	var (
		chosen  = -1
		count   = 0
		elig    = 0
		eligIdx [4]int
		best    = -1
		resErr  = false
		ended   = false
		endAt   int64
	)
	for i, e := range evs {
		if ended || e.at > end {
			continue
		}
		if e.isErr {
			if !e.bad {
				resErr = true
			}
			continue
		}
		count++
		if o.MinimumAffinity > 0 && !(e.aff >= o.MinimumAffinity) {
			continue
		}
		eligIdx[elig] = i
		elig++
		if o.AcceptFirstAvailable || o.MaximumAffinity > 0 && e.aff >= o.MaximumAffinity {
			chosen, ended, endAt = i, true, e.at
			continue
		}
		if e.aff > 0 && (best < 0 || e.aff > evs[best].aff) {
			best = i
		}
		if elig == 1 && o.ShortCircuitTimeout > 0 && e.at+int64(o.ShortCircuitTimeout) < end {
			end = e.at + int64(o.ShortCircuitTimeout)
		}
	}
	if !ended {
		endAt = end
	}

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ctx, cancel2 := context.WithTimeout(ctx, time.Duration(total))
	defer cancel2()
	claims := make(chan *internal.ClaimRequest, 4)
	responses := make(chan *internal.Response, 1)
	t0 := vm.Clock()
	go func() {
		at := int64(0)
		for i, e := range evs {
			time.Sleep(time.Duration(e.at - at))
			at = e.at
			if !e.isErr {
				claims <- &internal.ClaimRequest{RequestId: "r", ServerId: vIDs[i], Affinity: e.aff}
				continue
			}
			r := &internal.Response{RequestId: "r", ServerId: "sx"}
			if !e.bad {
				r.Error = "oops"
			}
			select {
			case responses <- r:
			case <-ctx.Done():
			}
		}
	}()
	if cancelAt >= 0 {
		go func() {
			time.Sleep(time.Duration(cancelAt))
			cancel()
		}()
	}
	done := false
	vm.Final(func() { vm.Assert(done, "selection never ends") })
	picked, err := selectServer(ctx, claims, responses, o)
	t1 := vm.Clock()
	done = true
	npick := 0
	if err == nil {
		npick = 1
	}
	vm.Assert(t1-t0 >= endAt, "selection ended early")
	vm.Assert(t1-t0 <= endAt+vm.Slack(), "selection ended late")
	if custom && !ended {
		vm.Reach("custom selection")
		vm.Assert(funcCalls == 1, "selection function not called once")
		vm.Assert(len(offered) == elig, "selection function not given the eligible claims")
		for i := 0; i < elig; i++ {
			vm.Assert(offered[i].ServerID == vIDs[eligIdx[i]] && offered[i].Affinity == evs[eligIdx[i]].aff, "selection function given another claim")
		}
		if pickCustom < 0 {
			vm.Assert(npick == 0 && err == errCustom, "error of the selection function lost")
		} else {
			vm.Assert(npick == 1 && picked == vIDs[pickCustom], "server of the selection function not used")
		}
		return
	}
	vm.Assert(funcCalls == 0, "selection function called")
	if ended {
		vm.Reach("accepted at once")
		vm.Assert(npick == 1 && picked == vIDs[chosen], "eligible claim not accepted at once")
		return
	}
	if best >= 0 {
		vm.Reach("best claim")
		vm.Assert(npick == 1, "no server selected though one is eligible")
		ok := false
		for i := 0; i < elig; i++ {
			if picked == vIDs[eligIdx[i]] && evs[eligIdx[i]].aff == evs[best].aff {
				ok = true
			}
		}
		vm.Assert(ok, "selected server is not one of highest affinity")
		return
	}
	vm.Assert(npick == 0, "ineligible server selected")
	var pe psrpc.Error
	switch {
	case resErr:
		vm.Reach("server error")
		vm.Assert(errors.As(err, &pe) && pe.Error() == "oops", "server's error lost")
	case count > 0:
		vm.Reach("none eligible")
		vm.Assert(errors.As(err, &pe) && pe.Code() == psrpc.Unavailable, "not 'no servers available'")
	default:
		vm.Reach("no claims")
		vm.Assert(err == psrpc.ErrNoResponse, "not 'no response from servers'")
	}
}
