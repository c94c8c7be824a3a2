// overlay: pkg/server
package server

import (
	"context"
	"reflect"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/metadata"
)

type verifValue = *wrapperspb.StringValue

// verifPeerSide is the client's side of the bus
type verifPeerSide struct {
	t      *testing.T
	s      *RPCServer
	b      bus.MessageBus
	res    bus.Subscription[*internal.Response]
	claims bus.Subscription[*internal.ClaimRequest]
	stream bus.Subscription[*internal.Stream]
}

func verifSides(t *testing.T) *verifPeerSide {
	b := bus.NewLocalMessageBus()
	sd := &info.ServiceDefinition{Name: "svc", ID: "SRV_1"}
	sd.RegisterMethod("claimed", false, false, true, false)
	sd.RegisterMethod("queued", false, false, false, true)
	sd.RegisterMethod("strClaimed", false, false, true, false)
	sd.RegisterMethod("str", false, false, false, false)
	p := &verifPeerSide{t: t, s: NewRPCServer(sd, b, psrpc.WithServerTimeout(2*time.Second)), b: b}
	ctx := context.Background()
	p.res, _ = bus.Subscribe[*internal.Response](ctx, b, info.GetResponseChannel("svc", "c"), 100)
	p.claims, _ = bus.Subscribe[*internal.ClaimRequest](ctx, b, info.GetClaimRequestChannel("svc", "c"), 100)
	p.stream, _ = bus.Subscribe[*internal.Stream](ctx, b, info.GetStreamChannel("svc", "c"), 100)
	t.Cleanup(func() { p.s.Close(true) })
	return p
}

func (p *verifPeerSide) request(rpc, id, text string, expires time.Duration) {
	raw, _ := proto.Marshal(wrapperspb.String(text))
	p.raw(rpc, id, raw, expires)
}

func (p *verifPeerSide) raw(rpc, id string, raw []byte, expires time.Duration) {
	_ = p.b.Publish(context.Background(), p.s.GetInfo(rpc, nil).GetRPCChannel(), &internal.Request{
		RequestId: id, ClientId: "c", SentAt: 1234567, Expiry: time.Now().Add(expires).UnixNano(), RawRequest: raw,
		Metadata: map[string]string{"k": "v", "": "x"},
	})
}

func verifTake[T any](t *testing.T, what string, c <-chan T) T {
	t.Helper()
	select {
	case v := <-c:
		return v
	case <-time.After(5 * time.Second):
		t.Fatalf("no %s", what)
		panic("")
	}
}

func verifNone[T any](t *testing.T, what string, c <-chan T) {
	t.Helper()
	select {
	case v := <-c:
		t.Fatalf("%s: %v", what, v)
	case <-time.After(40 * time.Millisecond):
	}
}

// the handler sees the metadata, client and send time of the request
func TestVerifServerHeader(t *testing.T) {
	p := verifSides(t)
	heads := make(chan *metadata.Header, 4)
	handle := func(ctx context.Context) {
		h := metadata.IncomingHeader(ctx)
		if h != nil {
			h.Metadata["k"] = "changed"
		}
		heads <- metadata.IncomingHeader(ctx)
	}
	_ = RegisterHandler[verifValue, verifValue](p.s, "queued", nil, func(ctx context.Context, m verifValue) (verifValue, error) {
		handle(ctx)
		return m, nil
	}, nil)
	_ = RegisterStreamHandler[verifValue, verifValue](p.s, "str", nil, func(s psrpc.ServerStream[verifValue, verifValue]) error {
		handle(s.Context())
		return nil
	}, nil)
	p.request("queued", "r", "q", 5*time.Second)
	_ = p.b.Publish(context.Background(), p.s.GetInfo("str", nil).GetStreamServerChannel(), &internal.Stream{
		StreamId: "s", RequestId: "o", SentAt: 1234567, Expiry: time.Now().Add(5 * time.Second).UnixNano(),
		Body: &internal.Stream_Open{Open: &internal.StreamOpen{NodeId: "c", Metadata: map[string]string{"k": "v", "": "x"}}},
	})
	for range 2 {
		h := verifTake(t, "handler", heads)
		if h == nil || h.RemoteID != "c" || h.SentAt.UnixNano() != 1234567 || !reflect.DeepEqual(h.Metadata, metadata.Metadata{"k": "v", "": "x"}) {
			t.Fatalf("header %v", h)
		}
	}
}
