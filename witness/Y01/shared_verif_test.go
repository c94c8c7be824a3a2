// overlay: pkg/middleware
package middleware

import (
	"context"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
)

// two calls with the same options and different retry timeouts
func TestVerifSharedOptions(t *testing.T) {
	opts := make([]psrpc.RequestOption, 0, 4)
	opts = append(opts, psrpc.WithSelectionOpts(psrpc.SelectionOpts{MinimumAffinity: 1}))
	timeout := func(opts []psrpc.RequestOption) time.Duration {
		var o psrpc.RequestOpts
		for _, f := range opts {
			f(&o)
		}
		return o.Timeout
	}
	short := NewRPCRetryInterceptor(RetryOptions{MaxAttempts: 1, Timeout: time.Second})(psrpc.RPCInfo{}, func(context.Context, proto.Message, ...psrpc.RequestOption) (proto.Message, error) {
		return nil, nil
	})
	long := NewRPCRetryInterceptor(RetryOptions{MaxAttempts: 1, Timeout: time.Minute})(psrpc.RPCInfo{}, func(_ context.Context, _ proto.Message, o ...psrpc.RequestOption) (proto.Message, error) {
		_, _ = short(context.Background(), nil, opts...)
		if got := timeout(o); got != time.Minute {
			t.Fatalf("the attempt has timeout %v", got)
		}
		return nil, nil
	})
	_, _ = long(context.Background(), nil, opts...)
}
