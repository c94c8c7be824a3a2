// overlay: pkg/client

package client

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifStr = wrapperspb.StringValue

var (
	_ = context.Background
	_ = errors.New
	_ sync.Mutex
	_ = time.Second
	_ proto.Message
	_ = psrpc.OK
	_ *internal.Request
	_ bus.Channel
	_ *info.RequestInfo
)

// one claim response per request, naming the selected server, none without a selection
func TestVerifClaimResponses(t *testing.T) {
	e := verifClient(t, true, false, true)
	for _, n := range []int{1, 3, 0} {
		var id string
		got := make(chan struct{})
		go func() {
			defer close(got)
			r := <-e.reqs
			id = r.RequestId
			for k := 0; k < n; k++ {
				e.claim(&internal.ClaimRequest{RequestId: id, ServerId: string(rune('a' + k)), Affinity: float32(k+1) / 4})
			}
			time.Sleep(300 * time.Millisecond)
			e.respond(&internal.Response{RequestId: id, RawResponse: verifRaw("v")})
		}()
		_, err := RequestSingle[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x"),
			psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: 100 * time.Millisecond}))
		<-got
		if (err == nil) != (n > 0) {
			t.Fatalf("%d claims: %v", n, err)
		}
		time.Sleep(50 * time.Millisecond)
		count := 0
		for len(e.acks) > 0 {
			a := <-e.acks
			count++
			if a.RequestId != id || a.ServerId != string(rune('a'+n-1)) {
				t.Fatalf("claim response %v for request %s", a, id)
			}
		}
		if n > 0 && count != 1 || n == 0 && count != 0 {
			t.Fatalf("%d claim responses for %d claims", count, n)
		}
	}
}
