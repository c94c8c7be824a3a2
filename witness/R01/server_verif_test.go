// overlay: pkg/server
package server

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifValue = *wrapperspb.StringValue

// verifPeerSide is the client's side of the bus
type verifPeerSide struct {
	t      *testing.T
	s      *RPCServer
	b      bus.MessageBus
	res    bus.Subscription[*internal.Response]
	claims bus.Subscription[*internal.ClaimRequest]
	stream bus.Subscription[*internal.Stream]
}

func verifSides(t *testing.T) *verifPeerSide {
	b := bus.NewLocalMessageBus()
	sd := &info.ServiceDefinition{Name: "svc", ID: "SRV_1"}
	sd.RegisterMethod("claimed", false, false, true, false)
	sd.RegisterMethod("queued", false, false, false, true)
	sd.RegisterMethod("strClaimed", false, false, true, false)
	sd.RegisterMethod("str", false, false, false, false)
	p := &verifPeerSide{t: t, s: NewRPCServer(sd, b, psrpc.WithServerTimeout(2*time.Second)), b: b}
	ctx := context.Background()
	p.res, _ = bus.Subscribe[*internal.Response](ctx, b, info.GetResponseChannel("svc", "c"), 100)
	p.claims, _ = bus.Subscribe[*internal.ClaimRequest](ctx, b, info.GetClaimRequestChannel("svc", "c"), 100)
	p.stream, _ = bus.Subscribe[*internal.Stream](ctx, b, info.GetStreamChannel("svc", "c"), 100)
	t.Cleanup(func() { p.s.Close(true) })
	return p
}

func (p *verifPeerSide) request(rpc, id, text string, expires time.Duration) {
	raw, _ := proto.Marshal(wrapperspb.String(text))
	p.raw(rpc, id, raw, expires)
}

func (p *verifPeerSide) raw(rpc, id string, raw []byte, expires time.Duration) {
	_ = p.b.Publish(context.Background(), p.s.GetInfo(rpc, nil).GetRPCChannel(), &internal.Request{
		RequestId: id, ClientId: "c", SentAt: 1234567, Expiry: time.Now().Add(expires).UnixNano(), RawRequest: raw,
		Metadata: map[string]string{"k": "v", "": "x"},
	})
}

func verifTake[T any](t *testing.T, what string, c <-chan T) T {
	t.Helper()
	select {
	case v := <-c:
		return v
	case <-time.After(5 * time.Second):
		t.Fatalf("no %s", what)
		panic("")
	}
}

func verifNone[T any](t *testing.T, what string, c <-chan T) {
	t.Helper()
	select {
	case v := <-c:
		t.Fatalf("%s: %v", what, v)
	case <-time.After(40 * time.Millisecond):
	}
}

// the handler runs once if this server was chosen and never otherwise
func TestVerifServerClaims(t *testing.T) {
	for _, affinity := range []float32{-1, 0, 0.5, 2} {
		for _, chosen := range []string{"SRV_1", "SRV_2", ""} {
			p := verifSides(t)
			var ran atomic.Int64
			_ = RegisterHandler[verifValue, verifValue](p.s, "claimed", nil, func(_ context.Context, m verifValue) (verifValue, error) {
				ran.Add(1)
				return m, nil
			}, func(context.Context, verifValue) float32 { return affinity })
			p.request("claimed", "r", "q", 2*time.Second)
			if affinity < 0 {
				verifNone(t, "an unwilling server claims", p.claims.Channel())
			} else {
				c := verifTake(t, "claim", p.claims.Channel())
				if c.RequestId != "r" || c.ServerId != "SRV_1" || c.Affinity != affinity || ran.Load() != 0 {
					t.Fatalf("claim %v, handler ran %d times", c, ran.Load())
				}
			}
			ch := p.s.GetInfo("claimed", nil).GetClaimResponseChannel()
			_ = p.b.Publish(context.Background(), ch, &internal.ClaimResponse{RequestId: "other", ServerId: "SRV_1"})
			time.Sleep(10 * time.Millisecond)
			if ran.Load() != 0 {
				t.Fatal("the handler ran on the claim of another request")
			}
			if chosen != "" {
				for range 2 {
					_ = p.b.Publish(context.Background(), ch, &internal.ClaimResponse{RequestId: "r", ServerId: chosen})
				}
			}
			if affinity >= 0 && chosen == "SRV_1" {
				if r := verifTake(t, "response", p.res.Channel()); r.RequestId != "r" || r.ServerId != "SRV_1" || r.Code != "" || ran.Load() != 1 {
					t.Fatalf("response %v, handler ran %d times", r, ran.Load())
				}
			}
			verifNone(t, "response", p.res.Channel())
			if ran.Load() > 1 || chosen != "SRV_1" && ran.Load() != 0 {
				t.Fatalf("affinity %v, %q chosen: handler ran %d times", affinity, chosen, ran.Load())
			}
			p.s.Close(true)
		}
	}
}

func TestVerifServerExpired(t *testing.T) {
	p := verifSides(t)
	var ran atomic.Int64
	for _, k := range []string{"queued", "claimed"} {
		_ = RegisterHandler[verifValue, verifValue](p.s, k, nil, func(_ context.Context, m verifValue) (verifValue, error) {
			ran.Add(1)
			return m, nil
		}, nil)
		p.request(k, "r", "q", -time.Second)
	}
	verifNone(t, "claim for an expired request", p.claims.Channel())
	verifNone(t, "response to an expired request", p.res.Channel())
	if ran.Load() != 0 {
		t.Fatal("an expired request was handled")
	}
}
