// overlay: internal/interceptors
package interceptors

import (
	"context"
	"fmt"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/info"
)

// every call of next runs the following interceptor, however often it is called
func TestVerifServerChain(t *testing.T) {
	for n := 0; n <= 5; n++ {
		for twice := -1; twice < n; twice++ {
			var trace []string
			var is []psrpc.ServerRPCInterceptor
			rpc := psrpc.RPCInfo{Method: "m", Topic: []string{"t"}}
			for i := 0; i < n; i++ {
				is = append(is, func(ctx context.Context, req proto.Message, inf psrpc.RPCInfo, h psrpc.ServerRPCHandler) (proto.Message, error) {
					if inf.Method != rpc.Method {
						t.Fatalf("interceptor %d sees info %v", i, inf)
					}
					trace = append(trace, fmt.Sprintf("%d:%s", i, req.(*wrapperspb.StringValue).Value))
					if i == twice {
						h(ctx, wrapperspb.String("again"))
					}
					r, err := h(ctx, wrapperspb.String(fmt.Sprintf("from%d", i)))
					return wrapperspb.String(fmt.Sprintf("%s<%d", r.(*wrapperspb.StringValue).Value, i)), err
				})
			}
			handler := func(ctx context.Context, req proto.Message) (proto.Message, error) {
				trace = append(trace, "h:"+req.(*wrapperspb.StringValue).Value)
				return wrapperspb.String("r"), nil
			}
			var want []string
			var run func(i int, req string) string
			run = func(i int, req string) string {
				if i == n {
					want = append(want, "h:"+req)
					return "r"
				}
				want = append(want, fmt.Sprintf("%d:%s", i, req))
				if i == twice {
					run(i+1, "again")
				}
				return fmt.Sprintf("%s<%d", run(i+1, fmt.Sprintf("from%d", i)), i)
			}
			exp := run(0, "q")
			chained := ChainServerInterceptors(is)
			if n == 0 {
				if chained != nil {
					t.Fatal("a chain of nothing is not nil")
				}
				continue
			}
			res, err := chained(context.Background(), wrapperspb.String("q"), rpc, handler)
			if err != nil || res.(*wrapperspb.StringValue).Value != exp {
				t.Fatalf("n=%d twice=%d: got %v %v, want %s", n, twice, res, err, exp)
			}
			if fmt.Sprint(trace) != fmt.Sprint(want) {
				t.Fatalf("n=%d twice=%d: ran %v, want %v", n, twice, trace, want)
			}
		}
	}
}

func TestVerifClientChain(t *testing.T) {
	for n := 0; n <= 5; n++ {
		var trace []string
		var is []psrpc.ClientRPCInterceptor
		inf := &info.RequestInfo{RPCInfo: psrpc.RPCInfo{Method: "m"}}
		for i := 0; i < n; i++ {
			is = append(is, func(rpc psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
				if rpc.Method != "m" {
					t.Fatal("wrong info")
				}
				return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
					trace = append(trace, fmt.Sprint(i))
					return next(ctx, req, opts...)
				}
			})
		}
		h := func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
			trace = append(trace, "h")
			return req, nil
		}
		ChainClientInterceptors[psrpc.ClientRPCHandler](is, inf, h)(context.Background(), nil)
		var want []string
		for i := 0; i < n; i++ {
			want = append(want, fmt.Sprint(i))
		}
		want = append(want, "h")
		if fmt.Sprint(trace) != fmt.Sprint(want) {
			t.Fatalf("n=%d: ran %v, want %v", n, trace, want)
		}
	}
}
