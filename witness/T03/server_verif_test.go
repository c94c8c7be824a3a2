// overlay: pkg/server
package server

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifValue = *wrapperspb.StringValue

// verifPeerSide is the client's side of the bus
type verifPeerSide struct {
	t      *testing.T
	s      *RPCServer
	b      bus.MessageBus
	res    bus.Subscription[*internal.Response]
	claims bus.Subscription[*internal.ClaimRequest]
	stream bus.Subscription[*internal.Stream]
}

func verifSides(t *testing.T) *verifPeerSide {
	b := bus.NewLocalMessageBus()
	sd := &info.ServiceDefinition{Name: "svc", ID: "SRV_1"}
	sd.RegisterMethod("claimed", false, false, true, false)
	sd.RegisterMethod("queued", false, false, false, true)
	sd.RegisterMethod("strClaimed", false, false, true, false)
	sd.RegisterMethod("str", false, false, false, false)
	p := &verifPeerSide{t: t, s: NewRPCServer(sd, b, psrpc.WithServerTimeout(2*time.Second)), b: b}
	ctx := context.Background()
	p.res, _ = bus.Subscribe[*internal.Response](ctx, b, info.GetResponseChannel("svc", "c"), 100)
	p.claims, _ = bus.Subscribe[*internal.ClaimRequest](ctx, b, info.GetClaimRequestChannel("svc", "c"), 100)
	p.stream, _ = bus.Subscribe[*internal.Stream](ctx, b, info.GetStreamChannel("svc", "c"), 100)
	t.Cleanup(func() { p.s.Close(true) })
	return p
}

func (p *verifPeerSide) request(rpc, id, text string, expires time.Duration) {
	raw, _ := proto.Marshal(wrapperspb.String(text))
	p.raw(rpc, id, raw, expires)
}

func (p *verifPeerSide) raw(rpc, id string, raw []byte, expires time.Duration) {
	_ = p.b.Publish(context.Background(), p.s.GetInfo(rpc, nil).GetRPCChannel(), &internal.Request{
		RequestId: id, ClientId: "c", SentAt: 1234567, Expiry: time.Now().Add(expires).UnixNano(), RawRequest: raw,
		Metadata: map[string]string{"k": "v", "": "x"},
	})
}

func verifTake[T any](t *testing.T, what string, c <-chan T) T {
	t.Helper()
	select {
	case v := <-c:
		return v
	case <-time.After(5 * time.Second):
		t.Fatalf("no %s", what)
		panic("")
	}
}

func verifNone[T any](t *testing.T, what string, c <-chan T) {
	t.Helper()
	select {
	case v := <-c:
		t.Fatalf("%s: %v", what, v)
	case <-time.After(40 * time.Millisecond):
	}
}

// an open is acknowledged once the stream is registered, and only where this server was chosen
func TestVerifServerStreamOpen(t *testing.T) {
	for _, rpc := range []string{"str", "strClaimed"} {
		for _, chosen := range []string{"SRV_1", "SRV_2", ""} {
			for _, result := range []error{nil, psrpc.NewErrorf(psrpc.NotFound, "gone")} {
				for _, hijack := range []bool{false, true} {
					p := verifSides(t)
					var ran atomic.Int64
					got := make(chan verifValue, 1)
					_ = RegisterStreamHandler[verifValue, verifValue](p.s, rpc, nil, func(s psrpc.ServerStream[verifValue, verifValue]) error {
						ran.Add(1)
						got <- <-s.Channel()
						if hijack {
							s.Hijack()
						}
						return result
					}, nil)
					ch := p.s.GetInfo(rpc, nil).GetStreamServerChannel()
					_ = p.b.Publish(context.Background(), ch, &internal.Stream{
						StreamId: "s", RequestId: "o", SentAt: 1, Expiry: time.Now().Add(2 * time.Second).UnixNano(),
						Body: &internal.Stream_Open{Open: &internal.StreamOpen{NodeId: "c"}},
					})
					run := true
					if rpc == "strClaimed" {
						c := verifTake(t, "claim", p.claims.Channel())
						if c.RequestId != "o" || c.ServerId != "SRV_1" || ran.Load() != 0 {
							t.Fatalf("claim %v", c)
						}
						if chosen != "" {
							_ = p.b.Publish(context.Background(), p.s.GetInfo(rpc, nil).GetClaimResponseChannel(), &internal.ClaimResponse{RequestId: "o", ServerId: chosen})
						}
						run = chosen == "SRV_1"
					}
					if !run {
						verifNone(t, "stream message", p.stream.Channel())
						if ran.Load() != 0 {
							t.Fatal("the handler ran on a server that was not chosen")
						}
						continue
					}
					if m := verifTake(t, "acknowledgement", p.stream.Channel()); m.GetAck() == nil || m.StreamId != "s" || m.RequestId != "o" {
						t.Fatalf("open answered with %v", m)
					}
					// the stream is there as soon as it was acknowledged
					raw, _ := proto.Marshal(wrapperspb.String("hello"))
					_ = p.b.Publish(context.Background(), ch, &internal.Stream{
						StreamId: "s", RequestId: "m", SentAt: 1, Expiry: time.Now().Add(5 * time.Second).UnixNano(),
						Body: &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: raw}},
					})
					if v := verifTake(t, "message in the handler", got); v.GetValue() != "hello" {
						t.Fatalf("message %v", v)
					}
					acks, closes := 0, 0
					want := 2
					if hijack {
						want = 1
					}
					for range want {
						m := verifTake(t, "stream message", p.stream.Channel())
						switch {
						case m.GetAck() != nil && m.RequestId == "m":
							acks++
						case m.GetClose() != nil && m.StreamId == "s":
							closes++
							text, code := psrpc.ErrStreamClosed.Error(), string(psrpc.ErrStreamClosed.Code())
							if result != nil {
								text, code = "gone", "not_found"
							}
							if m.GetClose().Error != text || m.GetClose().Code != code {
								t.Fatalf("handler gives %v, peer sees %v", result, m)
							}
						}
					}
					if acks != 1 || closes != want-1 || ran.Load() != 1 {
						t.Fatalf("%d acknowledgements, %d closes, handler ran %d times", acks, closes, ran.Load())
					}
					verifNone(t, "stream message", p.stream.Channel())
				}
			}
		}
	}
}
