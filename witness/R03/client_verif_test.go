// overlay: pkg/client

package client

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifStr = wrapperspb.StringValue

var (
	_ = context.Background
	_ = errors.New
	_ sync.Mutex
	_ = time.Second
	_ proto.Message
	_ = psrpc.OK
	_ *internal.Request
	_ bus.Channel
	_ *info.RequestInfo
)

func TestVerifInFlight(t *testing.T) {
	for _, claim := range []bool{false, true} {
		e := verifClient(t, false, false, claim)
		fail := errors.New("publish fails")
		mode := ""
		e.b.pub = func(_ bus.Channel, m proto.Message) error {
			switch m := m.(type) {
			case *internal.Request:
				want := 1
				if claim {
					want = 2
				}
				if e.pending() != want {
					t.Errorf("%d registrations when the request is published", e.pending())
				}
				e.c.mu.Lock()
				_, ok := e.c.responseChannels[m.RequestId]
				_, cok := e.c.claimRequests[m.RequestId]
				e.c.mu.Unlock()
				if !ok || cok != claim {
					t.Error("request published before it was registered")
				}
				if mode == "publish" {
					return fail
				}
			case *internal.ClaimResponse:
				if mode == "claim" {
					return fail
				}
			}
			return nil
		}
		for _, mode = range []string{"", "publish", "claim", "timeout", "cancel", "noclaim", "garbage"} {
			if !claim && (mode == "claim" || mode == "noclaim") {
				continue
			}
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan struct{})
			go func() {
				defer close(done)
				if mode == "publish" {
					return
				}
				r := <-e.reqs
				// messages for other requests go nowhere
				e.respond(&internal.Response{RequestId: "other", RawResponse: verifRaw("wrong")})
				e.claim(&internal.ClaimRequest{RequestId: "other", ServerId: "wrong", Affinity: 1})
				if claim && mode != "noclaim" {
					e.claim(&internal.ClaimRequest{RequestId: r.RequestId, ServerId: "s", Affinity: 1})
				}
				switch mode {
				case "":
					time.Sleep(30 * time.Millisecond)
					e.respond(&internal.Response{RequestId: r.RequestId, RawResponse: verifRaw("v")})
					e.respond(&internal.Response{RequestId: r.RequestId, RawResponse: verifRaw("again")})
				case "garbage":
					time.Sleep(30 * time.Millisecond)
					e.respond(&internal.Response{RequestId: r.RequestId, RawResponse: []byte{0xff, 0xff}})
				case "cancel":
					time.Sleep(30 * time.Millisecond)
					cancel()
				}
			}()
			v, err := RequestSingle[*verifStr](ctx, e.c, "M", nil, wrapperspb.String("x"), psrpc.WithRequestTimeout(200*time.Millisecond))
			if e.pending() != 0 {
				t.Fatalf("%q: %d registrations left", mode, e.pending())
			}
			code, _ := psrpc.GetErrorCode(err)
			switch mode {
			case "":
				if err != nil || v.GetValue() != "v" {
					t.Fatalf("%v %v", v, err)
				}
			case "publish", "claim":
				if code != psrpc.Internal {
					t.Fatalf("%q: %v", mode, err)
				}
			case "timeout":
				if !errors.Is(err, psrpc.ErrRequestTimedOut) {
					t.Fatalf("%q: %v", mode, err)
				}
			case "cancel":
				if !errors.Is(err, psrpc.ErrRequestCanceled) {
					t.Fatalf("%q: %v", mode, err)
				}
			default:
				if err == nil {
					t.Fatalf("%q: no error", mode)
				}
			}
			<-done
			cancel()
		}
	}
}

// concurrent calls each get their own response
func TestVerifOwnResponse(t *testing.T) {
	e := verifClient(t, false, false, false)
	go func() {
		var rs []*internal.Request
		for len(rs) < 20 {
			rs = append(rs, <-e.reqs)
		}
		for k := len(rs) - 1; k >= 0; k-- {
			e.respond(&internal.Response{RequestId: rs[k].RequestId, RawResponse: rs[k].RawRequest})
		}
	}()
	var wg sync.WaitGroup
	for k := 0; k < 20; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := string(rune('a' + k))
			v, err := RequestSingle[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String(s))
			if err != nil || v.GetValue() != s {
				t.Errorf("%q: %v %v", s, v, err)
			}
		}()
	}
	wg.Wait()
	if e.pending() != 0 {
		t.Fatal("registrations left")
	}
}
