// overlay: pkg/client

package client

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifStr = wrapperspb.StringValue

var (
	_ = context.Background
	_ = errors.New
	_ sync.Mutex
	_ = time.Second
	_ proto.Message
	_ = psrpc.OK
	_ *internal.Request
	_ bus.Channel
	_ *info.RequestInfo
)

// surplus claims and responses of one call do not keep the others waiting
func TestVerifSurplus(t *testing.T) {
	for _, claim := range []bool{false, true} {
		for _, size := range []int{1, 2, 100} {
			e := verifClient(t, false, false, claim, psrpc.WithClientChannelSize(size))
			hold := make(chan struct{})
			go func() {
				r := <-e.reqs
				for k := 0; k < 300; k++ {
					if claim {
						e.claim(&internal.ClaimRequest{RequestId: r.RequestId, ServerId: "s", Affinity: 1})
					}
				}
				if claim {
					time.Sleep(20 * time.Millisecond)
				}
				for k := 0; k < 300; k++ {
					e.respond(&internal.Response{RequestId: r.RequestId, RawResponse: verifRaw("v")})
				}
				close(hold)
			}()
			if _, err := RequestSingle[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x"), psrpc.WithRequestTimeout(5*time.Second)); err != nil {
				t.Fatalf("first call: %v", err)
			}
			select {
			case <-hold:
			case <-time.After(10 * time.Second):
				t.Fatal("the client stopped reading")
			}
			go func() {
				r := <-e.reqs
				if claim {
					e.claim(&internal.ClaimRequest{RequestId: r.RequestId, ServerId: "s", Affinity: 1})
					time.Sleep(20 * time.Millisecond)
				}
				e.respond(&internal.Response{RequestId: r.RequestId, RawResponse: verifRaw("w")})
			}()
			v, err := RequestSingle[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x"), psrpc.WithRequestTimeout(5*time.Second))
			if err != nil || v.GetValue() != "w" {
				t.Fatalf("claim %v size %d: second call: %v %v", claim, size, v, err)
			}
		}
	}
}

// a multi call that nobody reads does not stop the client for longer than its timeout
func TestVerifUnreadMulti(t *testing.T) {
	e := verifClient(t, false, true, false, psrpc.WithClientChannelSize(1))
	ctx, cancel := context.WithCancel(context.Background())
	if _, err := RequestMulti[*verifStr](ctx, e.c, "M", nil, wrapperspb.String("x"), psrpc.WithRequestTimeout(200*time.Millisecond)); err != nil {
		t.Fatal(err)
	}
	r := <-e.reqs
	go func() {
		for k := 0; k < 50; k++ {
			e.respond(&internal.Response{RequestId: r.RequestId, RawResponse: verifRaw("v")})
		}
	}()
	time.Sleep(300 * time.Millisecond)
	cancel()
	go func() {
		r := <-e.reqs
		e.respond(&internal.Response{RequestId: r.RequestId, RawResponse: verifRaw("w")})
	}()
	ch, err := RequestMulti[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x"), psrpc.WithRequestTimeout(5*time.Second))
	if err != nil {
		t.Fatal(err)
	}
	select {
	case v := <-ch:
		if v == nil || v.Result.GetValue() != "w" {
			t.Fatal(v)
		}
	case <-time.After(6 * time.Second):
		t.Fatal("no response")
	}
}
