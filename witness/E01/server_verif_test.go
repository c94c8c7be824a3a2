// overlay: pkg/server
package server

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifValue = *wrapperspb.StringValue

// verifPeerSide is the client's side of the bus
type verifPeerSide struct {
	t      *testing.T
	s      *RPCServer
	b      bus.MessageBus
	res    bus.Subscription[*internal.Response]
	claims bus.Subscription[*internal.ClaimRequest]
	stream bus.Subscription[*internal.Stream]
}

func verifSides(t *testing.T) *verifPeerSide {
	b := bus.NewLocalMessageBus()
	sd := &info.ServiceDefinition{Name: "svc", ID: "SRV_1"}
	sd.RegisterMethod("claimed", false, false, true, false)
	sd.RegisterMethod("queued", false, false, false, true)
	sd.RegisterMethod("strClaimed", false, false, true, false)
	sd.RegisterMethod("str", false, false, false, false)
	p := &verifPeerSide{t: t, s: NewRPCServer(sd, b, psrpc.WithServerTimeout(2*time.Second)), b: b}
	ctx := context.Background()
	p.res, _ = bus.Subscribe[*internal.Response](ctx, b, info.GetResponseChannel("svc", "c"), 100)
	p.claims, _ = bus.Subscribe[*internal.ClaimRequest](ctx, b, info.GetClaimRequestChannel("svc", "c"), 100)
	p.stream, _ = bus.Subscribe[*internal.Stream](ctx, b, info.GetStreamChannel("svc", "c"), 100)
	t.Cleanup(func() { p.s.Close(true) })
	return p
}

func (p *verifPeerSide) request(rpc, id, text string, expires time.Duration) {
	raw, _ := proto.Marshal(wrapperspb.String(text))
	p.raw(rpc, id, raw, expires)
}

func (p *verifPeerSide) raw(rpc, id string, raw []byte, expires time.Duration) {
	_ = p.b.Publish(context.Background(), p.s.GetInfo(rpc, nil).GetRPCChannel(), &internal.Request{
		RequestId: id, ClientId: "c", SentAt: 1234567, Expiry: time.Now().Add(expires).UnixNano(), RawRequest: raw,
		Metadata: map[string]string{"k": "v", "": "x"},
	})
}

func verifTake[T any](t *testing.T, what string, c <-chan T) T {
	t.Helper()
	select {
	case v := <-c:
		return v
	case <-time.After(5 * time.Second):
		t.Fatalf("no %s", what)
		panic("")
	}
}

func verifNone[T any](t *testing.T, what string, c <-chan T) {
	t.Helper()
	select {
	case v := <-c:
		t.Fatalf("%s: %v", what, v)
	case <-time.After(40 * time.Millisecond):
	}
}

// what the handler returns is what the response carries
func TestVerifServerOutcomes(t *testing.T) {
	p := verifSides(t)
	detail := wrapperspb.Int32(7)
	st, _ := status.New(codes.NotFound, "from grpc").WithDetails(detail)
	cases := []struct {
		resp       verifValue
		err        error
		code, text string
		details    int
	}{
		{wrapperspb.String("r"), nil, "", "", 0},
		{wrapperspb.String(""), nil, "", "", 0},
		{nil, errors.New("plain"), "unknown", "plain", 0},
		{nil, errors.New(""), "unknown", "", 0},
		{nil, psrpc.NewErrorf(psrpc.NotAcceptable, "typed"), "not_acceptable", "typed", 0},
		{nil, psrpc.NewError(psrpc.Aborted, errors.New("with details"), detail, detail), "aborted", "with details", 2},
		{nil, fmt.Errorf("wrapped: %w", psrpc.NewErrorf(psrpc.DataLoss, "inner")), "data_loss", "inner", 0},
		{nil, psrpc.NewErrorf(psrpc.Internal, ""), "internal", "", 0},
		{nil, st.Err(), "not_found", "from grpc", 1},
		{wrapperspb.String("both"), psrpc.NewErrorf(psrpc.Internal, "both"), "internal", "both", 0},
	}
	at := 0
	_ = RegisterHandler[verifValue, verifValue](p.s, "queued", nil, func(_ context.Context, m verifValue) (verifValue, error) {
		return cases[at].resp, cases[at].err
	}, nil)
	for at = range cases {
		c := cases[at]
		id := fmt.Sprint("r", at)
		p.request("queued", id, "q", 5*time.Second)
		r := verifTake(t, "response", p.res.Channel())
		if r.RequestId != id || r.ServerId != "SRV_1" || r.Code != c.code || r.Error != c.text || len(r.ErrorDetails) != c.details {
			t.Fatalf("%v %v gives %v", c.resp, c.err, r)
		}
		if c.err == nil {
			got := &wrapperspb.StringValue{}
			if err := proto.Unmarshal(r.RawResponse, got); err != nil || !proto.Equal(got, c.resp) {
				t.Fatalf("%v gives %v", c.resp, r)
			}
		}
	}
	p.raw("queued", "bad", []byte{0xff}, 5*time.Second)
	if r := verifTake(t, "response", p.res.Channel()); r.RequestId != "bad" || r.Code != "malformed_request" {
		t.Fatalf("a request that cannot be read gives %v", r)
	}
	verifNone(t, "a second response", p.res.Channel())
}
