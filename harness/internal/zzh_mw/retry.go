package zzh_mw

import (
	"context"
	"errors"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/middleware"
)

type msg = internal.ClaimResponse

const unit = 1 << 20

var codes = []psrpc.ErrorCode{psrpc.DeadlineExceeded, psrpc.Unavailable, psrpc.Internal, psrpc.NotFound}

// script decides how each attempt of a call ends and checks when attempts are made.
type script struct {
	call      int
	n         int // attempts whose outcome is scripted; the last one ends the call
	max       int
	T, B      int64 // of the backoff
	custom    bool  // GetRetryParameters
	pred      bool  // IsRecoverable
	more      []bool
	timeouts  []int64
	waits     []int64
	recov     []bool
	errs      []error
	made      int
	cancel    func()
	cancelIn  int // attempt during which the caller cancels
	cancelled bool
	asked     int
	lastRes   *msg
}

func newScript(call int, custom, pred bool) *script {
	s := &script{call: call, n: 2, custom: custom, pred: pred, cancelIn: -1}
	if !custom {
		s.n = 3
	}
	if vm.Thorough() {
		s.n++
	}
	for k := 0; k < s.n; k++ {
		var err error
		recoverable := false
		switch o := vm.Choose("outcome", 6, call, k); o {
		case 0:
		case 1:
			err, recoverable = errors.New("plain"), true
		default:
			err, recoverable = psrpc.NewErrorf(codes[o-2], "coded"), o <= 3
		}
		if pred {
			recoverable = vm.Bool("recoverable", call, k)
		}
		s.errs = append(s.errs, err)
		s.recov = append(s.recov, recoverable)
		s.more = append(s.more, vm.Bool("more", call, k))
		s.timeouts = append(s.timeouts, int64(vm.Int("timeoutK", -1, 6, call, k))*unit)
		s.waits = append(s.waits, int64(vm.Int("waitK", -1, 6, call, k))*4*unit)
	}
	return s
}

func (s *script) again(k int) bool {
	if s.errs[k] == nil {
		return false
	}
	if s.custom {
		return s.more[k]
	}
	return s.recov[k] && k+1 != s.max
}

// attempt k (from 0) is made with the given timeout (0: none set).
func (s *script) attempt(timeout, callers int64) (*msg, error) {
	k := s.made
	vm.Assert(k < s.n, "more attempts than the script allows")
	s.made++
	if k > 0 {
		vm.Assert(s.again(k-1), "another attempt after success, an unrecoverable error or the limit")
		vm.Assert(!s.cancelled, "attempt after the caller cancelled")
	}
	want := s.T
	if s.custom {
		if k > 0 {
			want = s.timeouts[k-1]
		}
	} else {
		want += int64(k) * s.B
	}
	if want <= 0 {
		want = callers
	}
	vm.Assert(timeout == want, "attempt timeout")
	if k > 0 {
		vm.Reach("second attempt")
	}
	if s.cancelIn == k {
		s.cancelled = true
		s.cancel()
	}
	s.lastRes = &msg{RequestId: "attempt"}
	return s.lastRes, s.errs[k]
}

// Retry: two calls through one retrying interceptor, each attempt ending in an arbitrary way; case:
// bit 0 custom parameters function, bit 1 custom recoverable predicate, bit 2 stream sends.
//
//verif:harness P16 event=1 rounds=10 rounds.thorough=12 cases=8 native=1 clock=-1 timeout=200
func Retry() {
	custom, pred, stream := vm.Case()&1 != 0, vm.Case()&2 != 0, vm.Case()&4 != 0
	T, B := int64(vm.Int("timeout", 0, 6))*unit, int64(vm.Int("backoff", 0, 6))*unit
	max := vm.Int("max", 1, 5)
	o := middleware.RetryOptions{MaxAttempts: max, Timeout: time.Duration(T), Backoff: time.Duration(B)}
	var s *script
	if pred {
		o.IsRecoverable = func(err error) bool {
			vm.Assert(err == s.errs[s.made-1], "predicate asked about another error")
			return s.recov[s.made-1]
		}
	}
	if custom {
		o.GetRetryParameters = func(err error, attempt int) (bool, time.Duration, time.Duration) {
			vm.Assert(attempt == s.made && err == s.errs[attempt-1], "parameters asked for another attempt")
			return s.more[attempt-1], time.Duration(s.timeouts[attempt-1]), time.Duration(s.waits[attempt-1])
		}
	}
	info := psrpc.RPCInfo{Service: "S", Method: "M"}
	var rpc psrpc.ClientRPCHandler
	var str psrpc.StreamHandler
	marks := 0
	req := &msg{RequestId: "req"}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if stream {
		str = middleware.NewStreamRetryInterceptor(o)(info, &sendStub{f: func(m proto.Message, opts []psrpc.StreamOption) error {
			vm.Assert(m == proto.Message(req), "message changed")
			so := &psrpc.StreamOpts{}
			b := marks
			for _, f := range opts {
				f(so)
			}
			vm.Assert(marks == b+1, "caller's option lost")
			_, err := s.attempt(int64(so.Timeout), 77)
			return err
		}})
	} else {
		rpc = middleware.NewRPCRetryInterceptor(o)(info, func(c context.Context, m proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
			vm.Assert(m == proto.Message(req), "request changed")
			vm.Assert(c == ctx, "context changed")
			ro := &psrpc.RequestOpts{}
			b := marks
			for _, f := range opts {
				f(ro)
			}
			vm.Assert(marks == b+1, "caller's option lost")
			return s.attempt(int64(ro.Timeout), 77)
		})
	}
	calls := 0
	vm.Final(func() { vm.Assert(calls == 2, "a call never ends") })
	s0, s1 := newScript(0, custom, pred), newScript(1, custom, pred)
	for _, s := range []*script{s0, s1} {
		s.max, s.T, s.B = max, T, B
		s.cancel = cancel
		// the script ends by itself
		vm.Assume(!s.again(s.n - 1))
	}
	if !stream {
		s1.cancelIn = vm.Int("cancelIn", -1, s1.n-1)
	}
	run := func(call int) {
		cancelAt := int64(-1)
		t0 := vm.Clock()
		if call == 1 && custom && !stream && vm.Bool("cancelLater") {
			cancelAt = int64(vm.Int("cancelAt", 0, 12))*4*unit + 2*unit
			s2 := s
			go func() {
				time.Sleep(time.Duration(cancelAt))
				s2.cancelled = true
				cancel()
			}()
		}
		var res proto.Message
		var err error
		if stream {
			so := make([]psrpc.StreamOption, 2, 4)
			so[0] = func(o *psrpc.StreamOpts) { o.Timeout = 77 }
			so[1] = func(o *psrpc.StreamOpts) { marks++ }
			err = str.Send(req, so...)
			m := marks
			so[1](&psrpc.StreamOpts{})
			vm.Assert(marks == m+1 && so[:4][2] == nil && so[:4][3] == nil, "caller's options modified")
		} else {
			ro := make([]psrpc.RequestOption, 2, 4)
			ro[0] = func(o *psrpc.RequestOpts) { o.Timeout = 77 }
			ro[1] = func(o *psrpc.RequestOpts) { marks++ }
			res, err = rpc(ctx, req, ro...)
			m := marks
			ro[1](&psrpc.RequestOpts{})
			vm.Assert(marks == m+1 && ro[:4][2] == nil && ro[:4][3] == nil, "caller's options modified")
		}
		vm.Assert(s.made >= 1, "never attempted")
		last := s.made - 1
		el := vm.Clock() - t0
		total := int64(0) // the waits that lie between the attempts made
		for k := 0; k < last; k++ {
			if s.custom && s.waits[k] > 0 {
				total += s.waits[k]
			}
		}
		if s.again(last) {
			vm.Reach("cancelled")
			vm.Assert(s.cancelled, "gave up early")
			vm.Assert(err == psrpc.ErrRequestCanceled, "not 'request canceled'")
			if cancelAt >= 0 && s.cancelIn != last {
				vm.Reach("cancelled while waiting")
				vm.Assert(el >= cancelAt && el <= cancelAt+vm.Slack(), "did not stop when cancelled")
			}
		} else {
			vm.Reach("ended")
			vm.Assert(err == s.errs[last], "not the last attempt's error")
			if !stream {
				vm.Assert(res == proto.Message(s.lastRes), "not the last attempt's response")
			}
			vm.Assert(el >= total && el <= total+vm.Slack(), "waits between attempts")
		}
		calls++
	}
	s = s0
	run(0)
	s = s1
	run(1)
}

type sendStub struct {
	f func(m proto.Message, opts []psrpc.StreamOption) error
}

func (s *sendStub) Recv(m proto.Message) error { return nil }
func (s *sendStub) Send(m proto.Message, opts ...psrpc.StreamOption) error {
	return s.f(m, opts)
}
func (s *sendStub) Close(error) error { return nil }
