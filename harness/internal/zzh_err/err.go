package zzh_err

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/twitchtv/twirp"
	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	vm "github.com/livekit/psrpc/internal/zzvm"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
)

type msg = internal.ClaimResponse

type herr struct {
	err  error
	code psrpc.ErrorCode
	text string
	det  bool
	detT string
	ok   bool
}

// pick builds an arbitrary handler result.
func pick() *herr {
	kind := vm.Choose("kind", 7)
	h := &herr{code: psrpc.Unknown, text: vm.Str("text", 4), det: vm.Bool("details"), detT: vm.Str("detail", 2)}
	code := psrpc.ErrorCode(vm.Str("code", 3))
	grpcCode := codes.Code(vm.Int("grpc", 0, 17))
	var d []proto.Message
	if h.det {
		d = append(d, &internal.Channel{Channel: h.detT})
	}
	switch kind {
	case 0:
		h.ok = true
	case 1:
		h.err = errors.New(h.text)
		h.det = false
	case 2:
		h.err = psrpc.NewError(code, errors.New(h.text), d...)
	case 3:
		h.err = fmt.Errorf("w: %w", psrpc.NewError(code, errors.New(h.text), d...))
	case 4:
		st := status.New(grpcCode, h.text)
		h.err = st.Err()
		h.det = false
		h.code = psrpc.ErrorCodeFromGRPC(grpcCode)
		vm.Assume(grpcCode != codes.OK)
	case 5:
		h.err = fmt.Errorf("w: %w", psrpc.NewErrorf(code, "%s", h.text))
		h.det = false
	case 6:
		st := status.New(grpcCode, h.text)
		if h.det {
			a, err := anypb.New(&internal.Channel{Channel: h.detT})
			vm.Assert(err == nil, "any")
			st = status.FromProto(&spb.Status{Code: int32(grpcCode), Message: h.text, Details: []*anypb.Any{a}})
		}
		h.err = st.Err()
		h.code = psrpc.ErrorCodeFromGRPC(grpcCode)
		vm.Assume(grpcCode != codes.OK)
	}
	if kind == 2 || kind == 3 || kind == 5 {
		// a psrpc error with the OK code is not an error anybody returns
		vm.Assume(code != "")
		h.code = code
	}
	return h
}

func (h *herr) check(err error) {
	if h.ok {
		vm.Reach("success")
		vm.Assert(err == nil, "error invented")
		return
	}
	vm.Reach("failure")
	vm.Assert(err != nil, "handler error lost")
	if err == nil {
		return
	}
	var pe psrpc.Error
	vm.Assert(errors.As(err, &pe), "not a psrpc error")
	vm.Assert(pe.Code() == h.code, "code changed")
	vm.Assert(pe.Error() == h.text, "message changed")
	c, ok := psrpc.GetErrorCode(err)
	vm.Assert(ok && c == h.code, "GetErrorCode disagrees")
	st, ok := status.FromError(err)
	vm.Assert(ok && st.Code() == h.code.ToGRPC() && st.Message() == h.text, "gRPC status of the error disagrees")
	if h.det {
		vm.Reach("details")
		vm.Assert(len(pe.DetailsProto()) == 1, "details lost")
		ds := pe.Details()
		vm.Assert(len(ds) == 1, "details lost")
		ch, ok := ds[0].(*internal.Channel)
		vm.Assert(ok && ch.Channel == h.detT, "details changed")
	} else {
		vm.Assert(len(pe.DetailsProto()) == 0, "details invented")
	}
}

func setup(h *herr, multi bool) *client.RPCClient {
	b := bus.NewVBus()
	sd := &info.ServiceDefinition{Name: "S", ID: "srv"}
	sd.RegisterMethod("M", false, multi, false, false)
	s := server.NewRPCServer(sd, b)
	err := server.RegisterHandler(s, "M", nil, func(ctx context.Context, req *msg) (*msg, error) {
		if h.err != nil {
			return nil, h.err
		}
		return &msg{RequestId: req.RequestId, ServerId: "x"}, nil
	}, nil)
	vm.Assert(err == nil, "registration failed")
	cd := &info.ServiceDefinition{Name: "S", ID: "cli"}
	cd.RegisterMethod("M", false, multi, false, false)
	c, err := client.NewRPCClient(cd, b, psrpc.WithClientTimeout(5*time.Second))
	vm.Assert(err == nil, "client creation failed")
	return c
}

// A handler's result of every kind reaches the caller of the real client through the real server.
//
//verif:harness P05 coop=1 rounds=4 native=1
func Unary() {
	h := pick()
	c := setup(h, false)
	res, err := client.RequestSingle[*msg](context.Background(), c, "M", nil, &msg{RequestId: "q"})
	h.check(err)
	if h.ok {
		vm.Assert(res != nil && res.RequestId == "q" && res.ServerId == "x", "payload changed")
	}
}

// The same for the responses of a multi-response call.
//
//verif:harness P05 coop=1 rounds=5 native=1
func Multi() {
	h := pick()
	c := setup(h, true)
	ch, err := client.RequestMulti[*msg](context.Background(), c, "M", nil, &msg{RequestId: "q"})
	vm.Assert(err == nil, "multi call failed")
	r, ok := <-ch
	vm.Assert(ok, "no response")
	h.check(r.Err)
	if h.ok {
		vm.Assert(r.Result != nil && r.Result.RequestId == "q" && r.Result.ServerId == "x", "payload changed")
	}
}

type row struct {
	c    psrpc.ErrorCode
	http int
	grpc codes.Code
	tw   twirp.ErrorCode
}

var table = []row{
	{psrpc.OK, 200, codes.OK, twirp.NoError},
	{psrpc.Canceled, 503, codes.Canceled, twirp.Canceled},
	{psrpc.MalformedRequest, 400, codes.InvalidArgument, twirp.Malformed},
	{psrpc.MalformedResponse, 500, codes.Internal, twirp.Malformed},
	{psrpc.DeadlineExceeded, 503, codes.DeadlineExceeded, twirp.DeadlineExceeded},
	{psrpc.Unavailable, 503, codes.Unavailable, twirp.Unavailable},
	{psrpc.Unknown, 500, codes.Unknown, twirp.Unknown},
	{psrpc.InvalidArgument, 400, codes.InvalidArgument, twirp.InvalidArgument},
	{psrpc.NotFound, 404, codes.NotFound, twirp.NotFound},
	{psrpc.NotAcceptable, 406, codes.Unknown, twirp.Unknown},
	{psrpc.AlreadyExists, 409, codes.AlreadyExists, twirp.AlreadyExists},
	{psrpc.PermissionDenied, 403, codes.PermissionDenied, twirp.PermissionDenied},
	{psrpc.ResourceExhausted, 429, codes.ResourceExhausted, twirp.ResourceExhausted},
	{psrpc.FailedPrecondition, 412, codes.FailedPrecondition, twirp.FailedPrecondition},
	{psrpc.Aborted, 409, codes.Aborted, twirp.Aborted},
	{psrpc.OutOfRange, 416, codes.OutOfRange, twirp.OutOfRange},
	{psrpc.Unimplemented, 501, codes.Unimplemented, twirp.Unimplemented},
	{psrpc.Internal, 500, codes.Internal, twirp.Internal},
	{psrpc.DataLoss, 500, codes.DataLoss, twirp.DataLoss},
	{psrpc.Unauthenticated, 401, codes.Unauthenticated, twirp.Unauthenticated},
	{psrpc.UnprocessableEntity, 422, codes.Unknown, twirp.Unknown},
	{psrpc.UpstreamServerError, 502, codes.Internal, twirp.Internal},
	{psrpc.UpstreamClientError, 424, codes.InvalidArgument, twirp.InvalidArgument},
}

// Every code, canonical or not, has one HTTP, gRPC and Twirp equivalent, and an error carries all three.
//
//verif:harness P05 native=1
func Mapping() {
	c := psrpc.ErrorCode(vm.Str("code", 21))
	text := vm.Str("text", 3)
	want := row{c, 500, codes.Unknown, twirp.Unknown}
	for _, r := range table {
		if r.c == c {
			want = r
		}
	}
	vm.Assert(c.ToHTTP() == want.http, "HTTP equivalent")
	vm.Assert(c.ToGRPC() == want.grpc, "gRPC equivalent")
	vm.Assert(c.ToTwirp() == want.tw, "Twirp equivalent")
	e := psrpc.NewErrorf(c, "%s", text)
	vm.Assert(e.ToHttp() == want.http, "HTTP status of the error")
	vm.Assert(e.GRPCStatus().Code() == want.grpc, "gRPC status of the error")
	vm.Assert(e.GRPCStatus().Message() == text, "gRPC message of the error")
	var te twirp.Error
	vm.Assert(errors.As(e, &te), "no Twirp equivalent")
	vm.Assert(te.Code() == want.tw && te.Msg() == text, "Twirp equivalent of the error")
	vm.Assert(errors.Is(e, c), "the error does not match its code")
}

// gRPC codes survive the translation to psrpc codes and back.
//
//verif:harness P05 native=1
func GRPC() {
	g := codes.Code(uint32(vm.U64("grpc")))
	back := psrpc.ErrorCodeFromGRPC(g).ToGRPC()
	if g <= codes.Unauthenticated {
		vm.Reach("canonical")
		vm.Assert(back == g, "gRPC code not preserved")
	} else {
		vm.Reach("other")
		vm.Assert(back == codes.Unknown, "unknown gRPC code invented")
	}
	c, ok := psrpc.GetErrorCode(status.Error(g, "x"))
	if g != codes.OK {
		vm.Assert(ok && c == psrpc.ErrorCodeFromGRPC(g), "code of a gRPC error")
	}
}
