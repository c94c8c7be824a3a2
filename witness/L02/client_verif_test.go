// overlay: pkg/client

package client

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifStr = wrapperspb.StringValue

var (
	_ = context.Background
	_ = errors.New
	_ sync.Mutex
	_ = time.Second
	_ proto.Message
	_ = psrpc.OK
	_ *internal.Request
	_ bus.Channel
	_ *info.RequestInfo
)

func TestVerifClosedClient(t *testing.T) {
	e := verifClient(t, false, false, false)
	e.c.Close()
	time.Sleep(50 * time.Millisecond)
	n := 0
	e.b.pub = func(bus.Channel, proto.Message) error { n++; return nil }
	if _, err := RequestSingle[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x")); !errors.Is(err, psrpc.ErrClientClosed) {
		t.Fatal(err)
	}
	if _, err := RequestMulti[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x")); !errors.Is(err, psrpc.ErrClientClosed) {
		t.Fatal(err)
	}
	if _, err := OpenStream[*verifStr, *verifStr](context.Background(), e.c, "M", nil); !errors.Is(err, psrpc.ErrClientClosed) {
		t.Fatal(err)
	}
	if _, err := Join[*verifStr](context.Background(), e.c, "M", nil); !errors.Is(err, psrpc.ErrClientClosed) {
		t.Fatal(err)
	}
	if _, err := JoinQueue[*verifStr](context.Background(), e.c, "M", nil); !errors.Is(err, psrpc.ErrClientClosed) {
		t.Fatal(err)
	}
	if n != 0 || e.pending() != 0 {
		t.Fatalf("%d published", n)
	}
}

type verifReader struct {
	bus.Reader
	n *int
	m *sync.Mutex
}

func (r *verifReader) Close() error {
	r.m.Lock()
	*r.n++
	r.m.Unlock()
	return r.Reader.Close()
}

type verifSubs struct {
	bus.MessageBus
	mu   sync.Mutex
	fail int
	subs []*int
	rs   []bus.Reader
}

func (b *verifSubs) Subscribe(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.subs) == b.fail {
		return nil, errors.New("fails")
	}
	r, err := b.MessageBus.Subscribe(ctx, ch, size)
	n := new(int)
	b.subs = append(b.subs, n)
	b.rs = append(b.rs, r)
	return &verifReader{r, n, &b.mu}, err
}

// every subscription is closed exactly once, however the client ends
func TestVerifSubscriptionsClosed(t *testing.T) {
	for fail := 0; fail <= 3; fail++ {
		for lost := -1; lost < 3; lost++ {
			if fail < 3 && lost >= 0 {
				continue
			}
			b := &verifSubs{MessageBus: bus.NewLocalMessageBus(), fail: fail}
			sd := &info.ServiceDefinition{Name: "svc", ID: "CLI_verif"}
			c, err := NewRPCClientWithStreams(sd, b)
			if (err == nil) != (fail == 3) {
				t.Fatalf("subscription %d fails: %v", fail, err)
			}
			if err == nil && lost < 0 {
				c.Close()
				c.Close()
			}
			if lost >= 0 {
				continue
			}
			time.Sleep(100 * time.Millisecond)
			b.mu.Lock()
			for k, n := range b.subs {
				if *n != 1 {
					t.Fatalf("subscription %d fails: subscription %d closed %d times", fail, k, *n)
				}
			}
			b.mu.Unlock()
		}
	}
}
