// overlay: pkg/client

package client

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifStr = wrapperspb.StringValue

var (
	_ = context.Background
	_ = errors.New
	_ sync.Mutex
	_ = time.Second
	_ proto.Message
	_ = psrpc.OK
	_ *internal.Request
	_ bus.Channel
	_ *info.RequestInfo
)

func TestVerifMulti(t *testing.T) {
	e := verifClient(t, false, true, false)
	e.b.pub = func(_ bus.Channel, m proto.Message) error {
		if _, ok := m.(*internal.Request); ok && e.pending() != 1 {
			t.Error("request published before it was registered")
		}
		return nil
	}
	for _, cancelled := range []bool{false, true} {
		ctx, cancel := context.WithCancel(context.Background())
		start := time.Now()
		ch, err := RequestMulti[*verifStr](ctx, e.c, "M", nil, wrapperspb.String("x"), psrpc.WithRequestTimeout(400*time.Millisecond))
		if err != nil {
			t.Fatal(err)
		}
		r := <-e.reqs
		for k := 0; k < 10; k++ {
			s := string(rune('a' + k))
			res := &internal.Response{RequestId: r.RequestId, RawResponse: verifRaw(s)}
			if k%3 == 2 {
				res = &internal.Response{RequestId: r.RequestId, Error: s, Code: "not_found"}
			}
			if k == 4 {
				res = &internal.Response{RequestId: r.RequestId, Code: "not_found"}
			}
			e.respond(res)
		}
		for k := 0; k < 10; k++ {
			v := <-ch
			s := string(rune('a' + k))
			switch {
			case v == nil:
				t.Fatal("closed early")
			case k == 4 && v.Err == nil:
				t.Fatal("an error became a success")
			case k == 4:
			case k%3 == 2 && (v.Err == nil || v.Err.Error() != s):
				t.Fatalf("response %d: %v", k, v)
			case k%3 != 2 && (v.Err != nil || v.Result.GetValue() != s):
				t.Fatalf("response %d: %v", k, v)
			}
		}
		if cancelled {
			cancel()
		}
		if v, ok := <-ch; ok {
			t.Fatalf("surplus result %v", v)
		}
		if d := time.Since(start); cancelled && d > 300*time.Millisecond || !cancelled && (d < 380*time.Millisecond || d > 2*time.Second) {
			t.Fatalf("ended after %v", d)
		}
		if e.pending() != 0 {
			t.Fatal("registration left")
		}
		e.respond(&internal.Response{RequestId: r.RequestId, RawResponse: verifRaw("late")})
		time.Sleep(20 * time.Millisecond)
		cancel()
	}
	e.b.pub = func(bus.Channel, proto.Message) error { return errors.New("fails") }
	_, err := RequestMulti[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x"), psrpc.WithRequestTimeout(50*time.Millisecond))
	if code, _ := psrpc.GetErrorCode(err); code != psrpc.Internal {
		t.Fatalf("publish failed: %v", err)
	}
	time.Sleep(200 * time.Millisecond)
	if e.pending() != 0 {
		t.Fatal("registration left after a failed publish")
	}
}

type verifNil struct{ psrpc.ClientMultiRPCHandler }

func (h *verifNil) Recv(msg proto.Message, err error) {
	h.ClientMultiRPCHandler.Recv(nil, errors.New("replaced"))
}

// an interceptor may turn a response into an error without a message
func TestVerifMultiNilMessage(t *testing.T) {
	e := verifClient(t, false, true, false, psrpc.WithClientMultiRPCInterceptors(func(_ psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
		return &verifNil{next}
	}))
	ch, err := RequestMulti[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x"), psrpc.WithRequestTimeout(time.Second))
	if err != nil {
		t.Fatal(err)
	}
	r := <-e.reqs
	e.respond(&internal.Response{RequestId: r.RequestId, RawResponse: verifRaw("v")})
	if v := <-ch; v == nil || v.Err == nil {
		t.Fatalf("%v", v)
	}
}
