// overlay: pkg/client

package client

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifStr = wrapperspb.StringValue

var (
	_ = context.Background
	_ = errors.New
	_ sync.Mutex
	_ = time.Second
	_ proto.Message
	_ = psrpc.OK
	_ *internal.Request
	_ bus.Channel
	_ *info.RequestInfo
)

func TestVerifExpiry(t *testing.T) {
	for _, c := range []struct {
		client, req, caller time.Duration
		want                time.Duration
	}{
		{0, 0, 0, 3 * time.Second}, {time.Second, 0, 0, time.Second}, {time.Second, 2 * time.Second, 0, 2 * time.Second},
		{4 * time.Second, 0, time.Second, time.Second}, {0, 0, time.Second, time.Second}, {0, 0, 10 * time.Second, 10 * time.Second},
		{time.Second, 0, 4 * time.Second, time.Second}, {0, 5 * time.Second, time.Second, -1},
	} {
		for _, multi := range []bool{false, true} {
			e := verifClient(t, false, multi, false, psrpc.WithClientTimeout(c.client))
			ctx, cancel := context.WithCancel(context.Background())
			if c.caller > 0 {
				ctx, cancel = context.WithTimeout(ctx, c.caller)
			}
			var opts []psrpc.RequestOption
			if c.req > 0 {
				opts = append(opts, psrpc.WithRequestTimeout(c.req))
			}
			start := time.Now()
			go func() {
				if multi {
					_, _ = RequestMulti[*verifStr](ctx, e.c, "M", nil, wrapperspb.String("x"), opts...)
				} else {
					_, _ = RequestSingle[*verifStr](ctx, e.c, "M", nil, wrapperspb.String("x"), opts...)
				}
			}()
			r := <-e.reqs
			want := c.want
			if want < 0 {
				want = c.req
				if !multi {
					want = c.caller
				}
			}
			if d := time.Unix(0, r.SentAt).Sub(start); d < -time.Millisecond || d > time.Second/2 {
				t.Fatalf("sent at %v", d)
			}
			if d := time.Duration(r.Expiry-r.SentAt) - want; d > 20*time.Millisecond || d < -200*time.Millisecond {
				t.Fatalf("client %v request %v caller %v multi %v: expires after %v", c.client, c.req, c.caller, multi, time.Duration(r.Expiry-r.SentAt))
			}
			if d, ok := ctx.Deadline(); ok && !multi && r.Expiry > d.UnixNano() {
				t.Fatalf("expires %v after the caller's deadline", time.Duration(r.Expiry-d.UnixNano()))
			}
			cancel()
		}
	}
}
