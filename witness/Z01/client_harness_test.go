// overlay: pkg/client

package client

import (
	"context"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifTap struct {
	bus.MessageBus
	pub func(bus.Channel, proto.Message) error
}

func (b *verifTap) Publish(ctx context.Context, ch bus.Channel, msg proto.Message) error {
	if b.pub != nil {
		if err := b.pub(ch, msg); err != nil {
			return err
		}
	}
	return b.MessageBus.Publish(ctx, ch, msg)
}

type verifEnv struct {
	b    *verifTap
	c    *RPCClient
	reqs <-chan *internal.Request
	acks <-chan *internal.ClaimResponse
}

func verifClient(t *testing.T, affinity, multi, claim bool, opts ...psrpc.ClientOption) *verifEnv {
	e := &verifEnv{b: &verifTap{MessageBus: bus.NewLocalMessageBus()}}
	sd := &info.ServiceDefinition{Name: "svc", ID: "CLI_verif"}
	sd.RegisterMethod("M", affinity, multi, claim, false)
	c, err := NewRPCClientWithStreams(sd, e.b, opts...)
	if err != nil {
		t.Fatal(err)
	}
	e.c = c
	i := sd.GetInfo("M", nil)
	rs, err := bus.Subscribe[*internal.Request](context.Background(), e.b, i.GetRPCChannel(), 100)
	if err != nil {
		t.Fatal(err)
	}
	as, err := bus.Subscribe[*internal.ClaimResponse](context.Background(), e.b, i.GetClaimResponseChannel(), 100)
	if err != nil {
		t.Fatal(err)
	}
	e.reqs, e.acks = rs.Channel(), as.Channel()
	t.Cleanup(func() { c.Close(); _ = rs.Close(); _ = as.Close() })
	return e
}

func (e *verifEnv) respond(r *internal.Response) {
	_ = e.b.Publish(context.Background(), info.GetResponseChannel("svc", "CLI_verif"), r)
}

func (e *verifEnv) claim(r *internal.ClaimRequest) {
	_ = e.b.Publish(context.Background(), info.GetClaimRequestChannel("svc", "CLI_verif"), r)
}

func (e *verifEnv) pending() int {
	e.c.mu.Lock()
	defer e.c.mu.Unlock()
	return len(e.c.claimRequests) + len(e.c.responseChannels) + len(e.c.streamChannels)
}

func verifRaw(s string) []byte {
	b, err := bus.SerializePayload(wrapperspb.String(s))
	if err != nil {
		panic(err)
	}
	return b
}

var _ = time.Second
var _ = psrpc.OK
